"""Measured values."""

import z3

from .defaults import default_measurement, default_measurement_any
from .eqn import Eqn, elem, eqn_apps
from .kit import *  # noqa: F403
from .kit import bind, contract, zeq
from .measure import MeasStep
from .stress import *  # noqa: F403

ASSUMPTIONS = [
    'contract of a callee discharged here as well: helpers._loop_compute (C11.loop_compute)',
]
DEPENDS = ('C11.loop_compute',)


def meas_world(k, modes, circ=False, cond_eqn=True):
    """a device of any size of which at most as many devices as exist are measured"""
    f = z3.Function(f'nmeas!{k.run.fresh_id()}', z3.IntSort(), z3.IntSort())

    def measured(w, n):
        m = f(term(n))
        k.run.fact(z3.And(m >= 1, m <= w.count(n)))
        return (w.L.t, w.C.t, m)

    w = World(k, modes, circ, cond_eqn, measured)
    w.mcount = f
    return w


def some_prm(k, w, kind='deg'):
    p = sname('prm')
    if not w.coll.member(p):
        raise Infeasible
    ps = w.spec(p)
    if ps.kind != kind:
        raise Infeasible
    return p, ps


def in_shape(k, name, r, sh):
    ok = isinstance(r, ArrRef) and len(r.shape) == len(sh)
    k.ensure(name, z3.And(*[dim_t(a) == dim_t(b) for a, b in zip(r.shape, sh)]) if ok else False, f'one value per measured device: {r!r}')
    if not ok:
        raise Infeasible


@contract('C07.shifted', 'devices.DegPrmMdl.calc_cond_shifted_vals')
def shifted(k, modes=('array', 'single', 'number')):
    """the parameter equation of the current true value, the conditional shift of this sample and no-effect mechanism values"""
    w = meas_world(k, modes, cond_eqn=k.pick(True, False))
    p, ps = some_prm(k, w)
    stub_loop_compute(k)
    conds = latent_arrays(k, 'conds', ps.msh)
    dims = tuple(Sym(d, T_INT) for d in ps.msh)
    r = k.returns('returns', k.meth(ps.obj, 'calc_cond_shifted_vals', dims, conds, ps.curr, ps.lats))
    in_shape(k, 'shape', r, ps.msh)
    i = k.index(ps.msh)
    c = value_call(k, 'equation', r.at(i), ps.eqn, i)
    n = sname('arg')
    if key_eq_decide(n, 'init'):
        k.ensure('argument.current', zeq(c.elem('init', i), orig(ps.curr, i)), 'the current true value of the device')
    elif key_eq_decide(n, 'cond'):
        v = c.elem('cond', i)
        if ps.ceqn is None:
            k.ensure('argument.no_shift', zeq(v, k.get(ps.cond, 'unitary')), 'no conditional shift')
        else:
            cc = value_call(k, 'argument.shift', v, ps.ceqn, i)
            check_args(k, 'shift', cc, i, ps.msh, {}, [ps.clat, conds], ps.ceqn)
    elif ps.coll.member(n):
        map_get(ps.mechs, n)
        k.ensure('argument.no_effect', zeq(c.elem(n, i), ps.mech(n).unitary), 'the no-effect value of the mechanism')
    else:
        want = orig_get(ps.own, n) if ps.eqn.params.member(n) else ABSENT
        got = c.elem(n, i)
        fits(k, 'argument.shape', c, n)
        if want is ABSENT:
            k.ensure('argument.none_added', got is ABSENT, f'{got!r}')
        else:
            k.ensure('argument.latent', zeq(got, orig_elem(want, i, ps.sh)) if is_num(got) else False, f'own latent value: {got!r}')


@contract('C07.circuit', 'devices.CircPrmMdl.calc_circ_vals')
def circuit(k):
    """the circuit equation of the current true parameter values, its latent values and the conditions of each sample"""
    w = meas_world(k, ('array',))
    L, C = w.L, w.C
    m, d = k.int('M', 1), k.int('D', 1)
    k.assume(m.t <= d.t)
    msh, sh = (L.t, C.t, m.t), (L.t, C.t, d.t)
    q = sname('some_arg')
    eqn = Eqn('circ', k.names('params'), 'array', msh, probe=[q])
    o = k.returns('constructed', k.new('devices.CircPrmMdl', eqn))
    lats, conds, prms = latent_arrays(k, 'lats', sh), latent_arrays(k, 'conds', msh), latent_arrays(k, 'prms', sh)
    # the equation has at least one argument with sampled values
    if not eqn.params.member(q) or all(map_get(x, q) is ABSENT for x in (lats, conds, prms)):
        raise Infeasible
    r = k.returns('returns', k.meth(o, 'calc_circ_vals', m, conds, prms, lats))
    i = k.index(msh)
    in_shape(k, 'shape', r, msh)
    c = value_call(k, 'equation', r.at(i), eqn, i)
    check_args(k, 'argument', c, i, msh, {}, [lats, conds, prms], eqn)


@contract('C07.step', 'sim._sim_meas_step')
def step(k):
    """each measured parameter gets its own current values, conditions and latents; the values measured reach the table"""
    w = World(k, ('array',), circ=True)
    s = MeasStep(k, w)
    if isinstance(s.result, Raised):
        raise Infeasible  # a measurement of something undefined: C14
    p = sname('prm')
    if not w.coll.member(p) or not s.coll.member(p):
        raise Infeasible
    ps = w.spec(p)
    blocks = s.rows(p)
    k.ensure('rows', len(blocks) == 1 and blocks[0].cols is not None and 'measured' in blocks[0].cols, f'{len(blocks)} groups of rows')
    if len(blocks) != 1:
        raise Infeasible
    row = k.int('row', 0)
    k.assume(row.t < dim_t(blocks[0].n))
    v = rterm(blocks[0].cols['measured'](row.t))
    m = rec_apps(v, 'measure')
    k.ensure('measured', len(m) == 1 and z3.eq(m[0][2], v), f'value {v}')
    c = one(m)
    true = c.then(lambda: c.args['true_vals'].st[1](row.t))
    f = one(rec_apps(rterm(true), 'rows'))
    vals = f.args['measured_vals']
    i = k.index(s.dims(p))
    x = rterm(f.then(lambda: vals.at(i)))
    apps = rec_apps(x, 'shift' if ps.kind == 'deg' else 'circ')
    k.ensure('own_model', len(apps) == 1 and z3.eq(apps[0][2], x) and apps[0][0].args['self'] is ps.obj, f'value {x}')
    c = one(apps)
    k.ensure('own_sample', z3.And(*[dim_t(a) == dim_t(b) for a, b in zip(apps[0][1], i)]), 'value of this sample')
    k.ensure('conditions.once', len(s.gens) == 1)
    if len(s.gens) != 1:
        raise Infeasible
    b, gen = s.gens[0]
    what = k.pick('target', 'conds', 'latents', 'values')
    if what == 'target':
        n = sname('condname')
        a, want = map_get(b['base_vals'], n), orig_get(s.conds, n)
        k.ensure('conditions.target_values', a is want if a is ABSENT or want is ABSENT else zeq(a, want), 'the target values of the step')
        k.ensure('conditions.of_measurement', zeq(b['target'], 'measure'), 'conditions that matter for measuring')
    elif what == 'conds':
        same_map(k, 'conditions.own', c.args['strs_conds'], map_get(gen, p), i, ps.sh)
    elif what == 'latents':
        if ps.kind == 'circ':
            same_map(k, 'latents.own', c.args['latents'], ps.own, i, ps.sh)
        else:
            k.ensure('latents.own', c.args['latents'] is map_get(k.get(s.state, 'latent_var_vals'), p) or False, 'latent values of this parameter')
    elif ps.kind == 'deg':
        k.ensure('values.current', zeq(c.then(lambda: elem(c.args['deg_vals'], i, ps.sh)), orig(ps.curr, i)), 'the current true values')
    else:
        q = sname('other')
        if not w.coll.member(q):
            raise Infeasible
        qs = w.spec(q)
        got = c.then(lambda: map_get(c.args['degraded_prm_vals'], q))
        if qs.kind == 'deg':
            k.ensure('values.parameters', isinstance(got, ArrRef) and zeq(got.at(i), orig(qs.curr, i)), 'the current true values of the parameters')


def one(apps):
    if len(apps) != 1:
        raise Infeasible
    return apps[0][0]


@contract('C07.frame', 'sim._sim_meas_step')
def frame(k):
    """measuring changes neither the values, nor the latents, nor the clock of the devices"""
    w = World(k, ('array',), circ=True)
    s = MeasStep(k, w)
    if isinstance(s.result, Raised):
        raise Infeasible
    e = k.get(s.state, 'elapsed')
    k.ensure('elapsed', rterm(e.s) == rterm(s.elapsed) if isinstance(e, TD) else False, f'{e!r}')
    p, ps = some_prm(k, w)
    i = k.index(ps.sh)
    which = k.pick('curr', 'init', 'own', 'mech')
    if which in ('curr', 'init'):
        v = map_get(k.get(s.state, f'{which}_prm_vals'), p)
        k.ensure(f'{which}_values', zeq(elem(v, i, ps.sh), orig(getattr(ps, which), i)), 'value of the parameter')
        return
    if which == 'own':
        n = sname('latent')
        got, want = map_get(map_get(k.get(s.state, 'latent_var_vals'), p), n), orig_get(ps.own, n)
        if want is ABSENT or ps.coll.member(n):
            raise Infeasible  # own latent variables are not called like a mechanism
        k.ensure('latents', zeq(elem(got, i, ps.sh), orig(want, i)), 'latent value')
        return
    m = sname('mech')
    if not ps.coll.member(m):
        raise Infeasible
    map_get(ps.mechs, m)
    ms = ps.mech(m)
    f = k.pick('curr', 'init')
    v = map_get(map_get(k.get(s.state, f'{f}_deg_mech_vals'), p), m)
    k.ensure(f'{f}_mechanism_values', zeq(elem(v, i, ps.sh), orig(getattr(ms, f), i)), 'value of the mechanism')


@contract('C07.starting_state', 'sim.simulate')
def starting_state(k):
    """a simulation goes on from the current true values of the supplied state"""
    from .c08 import starting_values

    starting_values(k, ('curr_prm_vals',))


@contract('C07.default_sum', 'devices.DegPrmMdl.calc_cond_shifted_vals')
def default_sum(k):
    """default equations, one to three mechanisms: the measured true value is the current value plus the no-effect values"""
    default_measurement(k)


@contract('C07.default_sum_any', 'devices.DegPrmMdl.calc_cond_shifted_vals')
def default_sum_any(k):
    """the same for any number of mechanisms, added up by sum()"""
    default_measurement_any(k)
