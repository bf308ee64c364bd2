"""Frames: what simulating may change, and what the simulator's own state may share."""

import z3

from . import c07, c08, c10, c12, c13, c14, c15, c17
from .c05 import Simulation
from .device import mechs
from .eqn import Eqn
from .kit import *  # noqa: F403
from .kit import contract, stub_samples
from .measure import MeasStep
from .stress import *  # noqa: F403

ASSUMPTIONS = [
    'the generator of a random variable is not part of the configuration (sampling advances it)',
    'assumed contracts of callees: iteration over a test specification only moves its own cursor (an attribute whose name starts with an underscore), '
    'calc_samples_needed returns a new dictionary (C04)',
    'user equations do not change their arguments',
    'repeatability is a consequence, not an obligation of its own: no input and no module-level object changes, so a repetition with the same '
    'inputs and no random draws executes the same program (run-time contract C18.repeatable evaluates it on whole simulations)',
]
VALUES = ('curr_prm_vals', 'curr_deg_mech_vals', 'init_prm_vals', 'init_deg_mech_vals', 'latent_var_vals')
INPUTS = ('test', 'device', 'environment', 'quantities', 'initial state')


def frame(k, tag='', more=()):
    """nothing that belongs to an input, and nothing at module level, is changed"""
    seen = {}
    for ref, what in k.run.writes:
        if ref.region is None:
            seen.setdefault('module', set()).add(f'{ref!r} {what}')
            continue
        if isinstance(ref, ObjRef) and ref.region == 'test' and ref.cls.name == 'TestSpec':
            what = tuple(a for a in what if not a.startswith('_'))
            if not what:
                continue
        seen.setdefault(ref.region, set()).add(f'{ref.cls.name if isinstance(ref, ObjRef) else type(ref).__name__} {what}')
    for r in (*INPUTS, *more, 'module'):
        k.ensure(f'{tag}{r.replace(" ", "_")}', r not in seen, f'changes {sorted(seen.get(r, ()))}')


def disjoint(k, name, v, depth=4, seen=None):
    """no mutable object reachable from v belongs to an input (generic keys)"""
    seen = set() if seen is None else seen
    if not isinstance(v, Ref) or v.oid in seen or depth < 0:
        return
    seen.add(v.oid)
    if v.region is not None and v.region != 'report':
        k.ensure(name, False, f'{v!r} belongs to the {v.region} of the caller')
        raise Infeasible
    if isinstance(v, MapRef):
        x = map_get(v, sname('key'))
        if x is not ABSENT:
            disjoint(k, name, x, depth - 1, seen)
    elif isinstance(v, ObjRef):
        for a in v.st.values():
            disjoint(k, name, a, depth - 1, seen)
    elif isinstance(v, ListRef):
        for s in v.st:
            if s[0] == 'items':
                for x in s[1]:
                    disjoint(k, name, x, depth - 1, seen)


@contract('C18.stress_step', 'sim._sim_stress_step')
def stress_step(k):
    """a stress step changes the simulation's state and report only"""
    w = World(k, ('array', 'single', 'number'))
    *_, r = c08.stress_step(k, ('array', 'single', 'number'), w)
    k.returns('returns', r)
    frame(k, 'frame.')


@contract('C18.measure_step', 'sim._sim_meas_step')
def measure_step(k):
    """a measurement step changes the simulation's state and report only"""
    s = MeasStep(k, World(k, ('array',), circ=True), own_instruments=True)
    if isinstance(s.result, Raised):
        frame(k, 'refused.')
        return
    frame(k, 'frame.')


@contract('C18.simulate', 'sim.simulate')
def simulate(k):
    """the steps work on a state and report of their own; the inputs are left as they are"""
    given = k.pick(True, False)
    s = Simulation(k, given)
    rep = k.returns('returns', s.result)
    what = k.pick('frame', 'report', *(VALUES if given else ()))
    if what == 'frame':
        frame(k, 'frame.', ('state',) if given else ())
    if not s.coll.nonempty():
        return
    j = s.coll.fresh('pos')
    segs = s.log.st
    if len(segs) != 1 or segs[0][0] != 'coll':
        raise Unsupported('steps executed in another way')
    L = segs[0][1].loop
    state = segs[0][1].elem(j)[2]
    k.ensure('own_state', not given or state is not s.init, 'the steps work on a copy')
    if what in VALUES:
        v = in_view(L.snap, lambda: state.st[what])
        in_view(L.snap, lambda: disjoint(k, 'copied', v))
        k.ensure('copied', True)
    elif what == 'report':
        for a, v in rep.st.items():
            if not isinstance(v, Poison):
                disjoint(k, 'own_report', v)
        k.ensure('own_report', True)


@contract('C18.init_state', 'sim.gen_init_state')
def init_state(k):
    """generating an initial state leaves the supplied quantities and the device untouched"""
    how = k.pick('given', 'report')
    c17.Generated(k, True, how=how)
    if how == 'report':  # the quantities of a report are completed
        k.run.writes = [w for w in k.run.writes if w[0].region != 'quantities']
    frame(k, f'{how}.')


@contract('C18.device_state', 'devices.DeviceMdl.gen_init_state')
def device_state(k):
    """sampling an initial state leaves the device untouched and shares nothing with it"""
    d = c17.Dev(k)
    counts, _, _ = c17.counts_map(k)
    st = k.returns('returns', k.meth(d.dev, 'gen_init_state', counts, d.C, d.L))
    k.run.writes = [w for w in k.run.writes if w[0].region != 'quantities']  # it may add parameters that are not measured
    what = k.pick('frame', *VALUES)
    if what == 'frame':
        frame(k, 'frame.')
    else:
        disjoint(k, 'own_state', k.get(st, what))
        k.ensure('own_state', True)


@contract('C18.latents', 'devices.LatentMdl.gen_latent_vals')
def latents(k):
    """sampling the latent variables of a model leaves the model untouched and shares nothing with it"""
    *_, r = c17.sample_latents(k)
    r = k.returns('returns', r)
    frame(k, 'frame.')
    disjoint(k, 'own_values', r)
    k.ensure('own_values', True)


@contract('C18.latent', 'devices.LatentVar.gen_latent_vals')
def latent(k):
    """sampling a latent variable leaves it untouched"""
    stub_samples(k)
    with k.region('device'):
        v = c12.build(k, c12.config(k))
    if isinstance(v, Raised):
        raise Infeasible
    r = k.returns('returns', k.meth(v, 'gen_latent_vals', k.int('D', 1), k.int('C', 1), k.int('L', 1)))
    frame(k, 'frame.')
    disjoint(k, 'own_values', r)
    k.ensure('own_values', True)


@contract('C18.mechanism', 'devices.MechMdl.calc_deg_vals')
def mechanism(k):
    """degrading a mechanism leaves its model untouched"""
    c08.mech_setup(k, k.pick('DegMechMdl', 'FailMechMdl'))
    frame(k, 'frame.')


@contract('C18.equivalent', 'devices.DegMechMdl.calc_equiv_strs_time')
def equivalent(k):
    """searching equivalent times leaves the model untouched"""
    r = c10.equivalent(k)[-1]
    k.returns('returns', r)
    frame(k, 'frame.')


@contract('C18.conditions', 'phys_envs.PhysTestEnv.gen_env_cond_vals')
def conditions(k):
    """generating conditions leaves test, device and environment untouched and hands out values of its own"""
    e = c14.Env(k)
    target = k.pick('stress', 'measure')
    c14.Needs(k, e, target)
    with k.region('test'):
        r, coll, count = c14.conditions(k, e, target, info=target == 'stress' or k.pick(True, False))
    if isinstance(r, Raised):
        raise Infeasible
    frame(k, 'frame.')
    disjoint(k, 'own_values', r)
    k.ensure('own_values', True)


@contract('C18.variation', 'phys_envs.EnvVrtnMdl.gen_env_vrtns')
def variation(k):
    """varying a condition leaves the variation model untouched"""
    stub_samples(k)
    with k.region('environment'):
        v = c13.build(k, c13.config(k))
    if isinstance(v, Raised):
        raise Infeasible
    r = k.returns('returns', k.meth(v, 'gen_env_vrtns', k.num('target'), k.int('D', 1), k.int('C', 1), k.int('L', 1)))
    frame(k, 'frame.')
    disjoint(k, 'own_values', r)
    k.ensure('own_values', True)


@contract('C18.instrument', 'phys_envs.MeasInstrument.measure')
def instrument(k):
    """measuring leaves the instrument and the true values untouched"""
    stub_samples(k)
    with k.region('environment'):
        err = k.rv('err') if k.pick(True, False) else None
        inst = k.new('phys_envs.MeasInstrument', 'x', k.pick(None, k.int('prec', 1)), err, c15.limits(k))
    if isinstance(inst, Raised):
        raise Infeasible
    with k.region('true values'):
        src = k.arr('true', (k.int('n', 1),))
    k.returns('returns', k.meth(inst, 'measure', src))
    frame(k, 'frame.', ('true values',))


@contract('C18.shifted', 'devices.DegPrmMdl.calc_cond_shifted_vals')
def shifted(k):
    """measuring a parameter leaves its model untouched"""
    w = c07.meas_world(k, ('array', 'single', 'number'), cond_eqn=k.pick(True, False))
    p, ps = c07.some_prm(k, w)
    stub_loop_compute(k)
    dims = tuple(Sym(d, T_INT) for d in ps.msh)
    k.returns('returns', k.meth(ps.obj, 'calc_cond_shifted_vals', dims, latent_arrays(k, 'conds', ps.msh), ps.curr, ps.lats))
    frame(k, 'frame.')


@contract('C18.dependencies', 'devices.DegPrmMdl.get_dependencies')
def dependencies(k):
    """asking a model what it depends on changes neither the model nor the list of conditions"""
    eqn = Eqn('prm', k.names('pparams'), 'array', ())
    with k.region('device'):
        if k.pick(False, True):
            o = k.new('devices.CircPrmMdl', eqn)
        else:
            mm, _, _ = mechs(k, units=False, classes=('DegMechMdl',))
            cm = k.new('devices.CondShiftMdl', Eqn('cond', k.names('cparams'), 'array', ()), None, k.num('cunit'))
            o = k.new('devices.DegPrmMdl', mm, cond_shift_mdl=cm, compute_eqn=eqn)
    if isinstance(o, Raised):
        raise Infeasible
    with k.region('test'):
        conds = k.name_list(k.names('conds'))
    k.returns('returns', k.meth(o, 'get_dependencies', conds, k.pick('stress', 'measure')))
    frame(k, 'frame.')
