"""Degradation of mechanisms and parameters in a stress step."""

import z3

from .defaults import default_degradation, default_degradation_any, default_mechanism
from .eqn import Eqn, EqnCall, eqn_apps, elem
from .kit import *  # noqa: F403
from .kit import bind, contract, zeq
from .stress import *  # noqa: F403

ASSUMPTIONS = [
    'equations take no latent variable or condition called "time"; mechanism values are finite',
    'contracts of callees discharged here as well: helpers._loop_compute (C11.loop_compute), helpers._convert_time (C02.conversion)',
    'contracts of callees discharged by their own checks: DegMechMdl.calc_equiv_strs_time (C10), PhysTestEnv.gen_env_cond_vals (C14)',
]
DEPENDS = ('C11.loop_compute', 'C02.conversion')


ALL = ('array', 'single', 'number')


def mech_setup(k, cls, modes=ALL):
    dims = dims3(k)
    sh = tuple(d.t for d in dims)
    unit = k.pick(*UNITS)
    eqn = Eqn('mech', k.names('params'), k.pick(*modes), sh)
    unitary = k.num('unitary')
    with k.region('device'):
        m = k.new(f'devices.{cls}', eqn, None, unitary, unit)
    if isinstance(m, Raised):
        raise Infeasible
    times = k.arr('times', sh)
    pre = k.arr('pre', sh, dtype='any')
    conds = latent_arrays(k, 'conds', sh)
    lats = latent_arrays(k, 'lats', sh)
    stub_loop_compute(k, sh)
    i = k.index(sh)
    k.assume(rterm(pre.at(i)) != INF)
    before = orig(pre, i)
    r = k.meth(m, 'calc_deg_vals', times, pre, conds, lats, tuple(dims))
    r = k.returns('returns', r)
    ok = isinstance(r, ArrRef) and len(r.shape) == 3
    k.ensure('shape', z3.And(*[dim_t(a) == b for a, b in zip(r.shape, sh)]) if ok else False, f'one value per sample, got {r!r}')
    if not ok:
        raise Infeasible
    return m, eqn, unit, unitary, times, before, conds, lats, i, sh, r


def longest(unit):
    return 10**10 * max(Fraction(1), Fraction(3600) / UNITS[unit])


@contract('C08.mechanism', 'devices.MechMdl.calc_deg_vals')
def mechanism(k, modes=ALL):
    """a sample is re-evaluated at its time with its own latents and conditions; beyond the search range it keeps its value"""
    m, eqn, unit, _, times, pre, conds, lats, i, sh, r = mech_setup(k, 'DegMechMdl', modes)
    t, top = rterm(times.at(i)), longest(unit)
    if k.pick('attainable', 'not') == 'attainable':
        k.assume(t <= rterm(top / 2))
        c = value_call(k, 'evaluated', r.at(i), eqn, i)
        check_args(k, 'argument', c, i, sh, {'time': times}, [lats, conds], eqn)
    else:
        k.assume(t > rterm(top))
        k.ensure('kept', zeq(r.at(i), pre), 'a sample without attainable equivalent time keeps its degradation')


def stress_step(k, modes=("array",), w=None, name=None):
    """run the real stress step on a device of any size; returns what the checks need"""
    w = w or World(k, modes)
    dev, elapsed = w.device(), k.real('elapsed')
    state, report = w.state(elapsed), w.report()
    w.elapsed, w.step_id = elapsed, k.int('step', 0)
    w.earlier = (('base', 'earlier summary'),)
    k.set(report, 'test_summary', FrameRef(w.earlier))
    dur = TD(k.real('dur'))
    with k.region('test'):
        conds = k.map(k.names('stepconds'), lambda n: k.num('cval'))
        step = k.new('test_specs.StrsSpec', conds, dur, name) if name is not None else k.new('test_specs.StrsSpec', conds, dur)
    with k.region('environment'):
        env = k.new('phys_envs.PhysTestEnv')
    if any(isinstance(x, Raised) for x in (step, env)):
        raise Infeasible
    stub_convert_time(k)
    stub_loop_compute(k)
    envcalls = []

    def gen(ip, f, args, kwargs, kwmap):
        b = bind(f, args, kwargs, ('base_vals', 'prms', 'test_info', 'dev_mdl', 'target', 'num_chps', 'num_lots'), True)
        prms = b['prms']
        segs = ip.as_segs(prms)
        out = k.map(SColl(f'gen{k.run.fresh_id()}', lambda n: segs_member(segs, n)), lambda n: latent_arrays(k, 'cond', w.shape(n)))
        envcalls.append((b, prms, out))
        return out

    def equiv(ip, f, args, kwargs, kwmap):
        b = bind(f, args, kwargs, ('deg_val', 'init_val', 'strs_conds', 'latents', 'dims'), True)
        sh = tuple(dim_t(ops.dim_of(d)) for d in b['dims'])
        return Rec('equiv', {**b, 'self': args[0]}, sh).array()

    def deg(ip, f, args, kwargs, kwmap):
        b = bind(f, args, kwargs, ('times', 'pre_deg_vals', 'strs_conds', 'latents', 'dims'), True)
        sh = tuple(dim_t(ops.dim_of(d)) for d in b['dims'])
        return Rec('deg', {**b, 'self': args[0]}, sh).array()

    k.ip.stubs['phys_envs.PhysTestEnv.gen_env_cond_vals'] = gen
    k.ip.stubs['devices.DegMechMdl.calc_equiv_strs_time'] = equiv
    for c in ('MechMdl', 'DegMechMdl', 'FailMechMdl'):
        k.ip.stubs[f'devices.{c}.calc_deg_vals'] = deg
    r = k.private('sim._sim_stress_step', step=step, sim_state=state, dev_mdl=dev, test_env=env, report=report, step_id=w.step_id)
    return w, state, report, conds, dur, envcalls, r


def generic_prm(k, w):
    p = sname('prm')
    if not w.coll.member(p):
        raise Infeasible
    ps = w.spec(p)
    if ps.kind != 'deg':
        raise Infeasible
    return p, ps


def env_call(k, envcalls, conds, p, report):
    """the conditions of the step were generated once, for the stress target values, for this parameter"""
    k.ensure('conditions.once', len(envcalls) == 1, f'{len(envcalls)} generations of the conditions')
    if len(envcalls) != 1:
        raise Infeasible
    b, prms, gen = envcalls[0]
    n = sname('condname')
    a, want = map_get(b['base_vals'], n), map_get(conds, n)
    k.ensure('conditions.target_values', a is want if a is ABSENT or want is ABSENT else zeq(a, want), 'the target values of the step')
    return map_get(gen, p)


@contract('C08.mechanisms_of_step', 'sim._sim_stress_step')
def step_mechs(k):
    """every mechanism of every degraded parameter is advanced to its equivalent time plus the duration under the step's conditions"""
    w, state, report, conds, dur, envcalls, r = stress_step(k)
    k.returns('returns', r)
    p, ps = generic_prm(k, w)
    m = sname('mech')
    if not ps.coll.member(m):
        raise Infeasible
    map_get(ps.mechs, m)
    ms = ps.mech(m)
    i = k.index(ps.sh)
    cp = env_call(k, envcalls, conds, p, report)
    after = map_get(map_get(k.get(state, 'curr_deg_mech_vals'), p), m)
    ok = isinstance(after, ArrRef) and len(after.shape) == 3
    k.ensure('value.array', ok, f'{after!r}')
    if not ok:
        raise Infeasible
    apps = [(c, at, e) for c, at, e in rec_apps(rterm(after.at(i)), 'deg') if z3.eq(e, rterm(after.at(i)))]
    k.ensure('value.advanced', len(apps) == 1 and apps[0][0].args['self'] is ms.obj, f'new value {after.at(i)!r}')
    if len(apps) != 1:
        raise Infeasible
    c, at, e = apps[0]
    k.ensure('value.own_sample', z3.And(*[dim_t(a) == dim_t(b) for a, b in zip(at, i)]), 'value of this sample')
    b = c.args
    pre = c.then(lambda: elem(b['pre_deg_vals'], i, ps.sh))
    k.ensure('value.previous', zeq(pre, orig(ms.curr, i)), 'previous degradation of this sample')
    t = c.then(lambda: elem(b['times'], i, ps.sh))
    extra = rterm(dur.s) / factor(k, ms.unit)
    if ms.cls == 'FailMechMdl':
        k.ensure('time.phase_alone', rterm(t) == extra, 'hard failures only see the current phase')
    else:
        eq = rec_apps(rterm(t), 'equiv')
        k.ensure('time.equivalent', len(eq) == 1 and eq[0][0].args['self'] is ms.obj, f'time {t!r}')
        if len(eq) != 1:
            raise Infeasible
        ec, eat, ee = eq[0]
        k.ensure('time.sum', z3.And(rterm(t) == ee + extra, *[dim_t(a) == dim_t(b) for a, b in zip(eat, i)]), f'time {t!r}')
        d = ec.then(lambda: elem(ec.args['deg_val'], i, ps.sh))
        k.ensure('time.of_current', zeq(d, orig(ms.curr, i)), 'equivalent time of the current degradation')
        if k.pick('conds', 'lats') == 'conds':
            same_map(k, 'time.conditions', ec.args['strs_conds'], cp, i, ps.sh)
        else:
            same_map(k, 'time.latents', ec.args['latents'], ms.lats, i, ps.sh)
    if k.pick('conds', 'lats') == 'conds':
        same_map(k, 'value.conditions', b['strs_conds'], cp, i, ps.sh)
    else:
        same_map(k, 'value.latents', b['latents'], ms.lats, i, ps.sh)


@contract('C08.parameter_of_step', 'sim._sim_stress_step')
def step_prms(k, modes=ALL):
    """the new true value is the parameter equation of the initial value, the new mechanism values and the no-effect condition value"""
    w, state, report, conds, dur, envcalls, r = stress_step(k, modes)
    k.returns('returns', r)
    p, ps = generic_prm(k, w)
    i = k.index(ps.sh)
    after = map_get(k.get(state, 'curr_prm_vals'), p)
    ok = isinstance(after, ArrRef) and len(after.shape) == 3
    k.ensure('value.array', z3.And(*[dim_t(a) == b for a, b in zip(after.shape, ps.sh)]) if ok else False, f'{after!r}')
    if not ok:
        raise Infeasible
    c = value_call(k, 'value.equation', after.at(i), ps.eqn, i)
    n = sname('arg')
    if key_eq_decide(n, 'init'):
        k.ensure('argument.initial', zeq(c.elem('init', i), orig(ps.init, i)), 'the initial value of the sample')
    elif key_eq_decide(n, 'cond'):
        k.ensure('argument.no_shift', zeq(c.elem('cond', i), k.get(ps.cond, 'unitary')), 'no conditional shift')
    elif ps.coll.member(n):
        m = map_get(map_get(k.get(state, 'curr_deg_mech_vals'), p), n)
        k.ensure('argument.mechanism', zeq(c.elem(n, i), elem(m, i, ps.sh)), 'the new value of the mechanism')
    else:
        want = orig_get(ps.own, n) if ps.eqn.params.member(n) else ABSENT
        got = c.elem(n, i)
        fits(k, 'argument.shape', c, n)
        if want is ABSENT:
            k.ensure('argument.none_added', got is ABSENT, f'{got!r}')
        else:
            k.ensure('argument.latent', zeq(got, orig_elem(want, i, ps.sh)) if is_num(got) else False, f'own latent value: {got!r}')


@contract('C08.frame_of_step', 'sim._sim_stress_step')
def step_frame(k):
    """initial values and latent values never change; the elapsed time advances by the duration"""
    w = World(k, ('array',))
    w2, state, report, conds, dur, envcalls, r = stress_step(k, ('array',), w)
    k.returns('returns', r)
    e = k.get(state, 'elapsed')
    k.ensure('elapsed', rterm(e.s) == rterm(w.elapsed) + rterm(dur.s) if isinstance(e, TD) else False, f'{e!r}')
    p, ps = generic_prm(k, w)
    i = k.index(ps.sh)
    which = k.pick('init', 'init_mech', 'latent')
    if which == 'init':
        k.ensure('initial_values', zeq(elem(map_get(k.get(state, 'init_prm_vals'), p), i, ps.sh), orig(ps.init, i)), 'initial value of the parameter')
        return
    m = sname('mech')
    if not ps.coll.member(m):
        raise Infeasible
    map_get(ps.mechs, m)
    ms = ps.mech(m)
    if which == 'init_mech':
        v = map_get(map_get(k.get(state, 'init_deg_mech_vals'), p), m)
        k.ensure('initial_mechanism_values', zeq(elem(v, i, ps.sh), orig(ms.init, i)), 'initial value of the mechanism')
    else:
        same_map(k, 'latents', map_get(map_get(k.get(state, 'latent_var_vals'), p), m), ms.lats, i, ps.sh)


STATE = ('curr_prm_vals', 'init_prm_vals', 'curr_deg_mech_vals', 'init_deg_mech_vals', 'latent_var_vals')


@contract('C08.starting_state', 'sim.simulate')
def starting_state(k):
    """the steps of a simulation work on the supplied state: the same current, initial and latent values of every parameter"""
    starting_values(k, STATE)


def starting_values(k, fields):
    from .c05 import Simulation

    s = Simulation(k, True)
    if isinstance(s.result, Raised) or not s.coll.nonempty():
        raise Infeasible
    j = s.coll.fresh('pos')
    segs = s.log.st
    if len(segs) != 1 or segs[0][0] != 'coll':
        raise Unsupported('steps executed in another way')
    state, snap = segs[0][1].elem(j)[2], segs[0][1].loop.snap
    w = s.w
    which = k.pick(*fields)
    p, ps = generic_prm(k, w)
    i = k.index(ps.sh)

    def value(*path):
        def go():
            v = state.st[which]
            for n in path:
                v = map_get(v, n) if isinstance(v, MapRef) else ABSENT
            return elem(v, i, ps.sh) if isinstance(v, ArrRef) or is_num(v) else v

        return in_view(snap, go)

    def same(name, got, want):
        k.ensure(name, zeq(got, want) if is_num(got) else False, f'{which} as supplied: {got!r}')

    if which == 'curr_prm_vals':
        return same('current', value(p), orig(ps.curr, i))
    if which == 'init_prm_vals':
        return same('initial', value(p), orig(ps.init, i))
    m = sname('mech')
    if not ps.coll.member(m):
        raise Infeasible
    map_get(ps.mechs, m)
    ms = ps.mech(m)
    if which == 'curr_deg_mech_vals':
        return same('current_mechanism', value(p, m), orig(ms.curr, i))
    if which == 'init_deg_mech_vals':
        return same('initial_mechanism', value(p, m), orig(ms.init, i))
    n = sname('latent')
    want = orig_get(ms.lats, n)
    got = value(p, m, n)
    if want is ABSENT:
        k.ensure('no_other_latent', got is ABSENT, f'{got!r}')
    else:
        same('latent', got, orig_elem(want, i, ps.sh))


@contract('C08.default_sum', 'devices.DegPrmMdl.calc_deg_vals')
def default_sum(k):
    """default equation, one to three mechanisms: initial value plus no shift plus the sum of the mechanism values"""
    default_degradation(k)


@contract('C08.default_sum_any', 'devices.DegPrmMdl.calc_deg_vals')
def default_sum_any(k):
    """the same for any number of mechanisms, added up by sum()"""
    default_degradation_any(k)


@contract('C08.default_mechanism', 'devices.MechMdl.calc_deg_vals')
def no_equation(k):
    """a mechanism without an equation never degrades"""
    default_mechanism(k)
