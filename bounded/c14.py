from datetime import timedelta

import numpy as np

from bounded import lib, world as W
from bounded.c12 import decode, enc, check_layers
from bounded.gen import pick

lib.load()
from gerabaldi import simulate, gen_init_state  # noqa: E402
from gerabaldi.models import *  # noqa: E402,F403
from gerabaldi.exceptions import MissingParamError, UserConfigError  # noqa: E402

CLAUSES, clause = lib.registry()
GROUP = {'dev': lambda i: i, 'chp': lambda i: i[:2], 'lot': lambda i: ()}
NAMES = ['temp', 'Vdd', 'humid']
# names that are prefixes or parts of one another, or end the way internal attributes might
ALIKE = ['temp', 'temp_ambient', 'temp_2', 'a_temp', 'Temp', 'Vdd', 'Vdd_core', 'var', 'temp_var', 'mdl']


def eqn(args, ret='time'):
    ns = {}
    exec(f'def f({", ".join(args)}):\n    return {"+".join(args) or "0"}', ns)
    return ns['f']


def mk(rng):
    """random device whose mechanism / shift / circuit equations depend on known subsets of the conditions"""
    deps, prms = {}, {}
    for p in pick(rng, ['pa', 'pb', 'pc'], int(rng.integers(1, 4))):
        mechs, s = {}, set()
        for m in pick(rng, ['ma', 'mb', 'mc', 'md'], int(rng.integers(1, 5))):
            use = pick(rng, NAMES, int(rng.integers(0, 4)))
            s |= set(use)
            cls = pick(rng, [DegMechMdl, FailMechMdl])
            mechs[m] = cls(eqn(['time'] + use), time_unit='h')
        shift = pick(rng, NAMES, int(rng.integers(0, 4)))
        prms[p] = DegPrmMdl(mechs, cond_shift_mdl=CondShiftMdl(eqn(shift)) if shift or rng.random() < 0.5 else None)
        deps[p] = {'stress': s, 'measure': set(shift)}
    if rng.random() < 0.6:
        use = pick(rng, NAMES, int(rng.integers(0, 3)))
        prms['circ'] = CircPrmMdl(eqn([pick(rng, list(prms))] + use))
        deps['circ'] = {'measure': set(use), 'stress': set(use)}
    return DeviceMdl(prms), deps


def mk_env(rng, conds):
    spec, vr = {}, {}
    for c in conds:
        if rng.random() < 0.75:
            vt = pick(rng, ['offset', 'scaling'])
            dd = {l for l in ('dev', 'chp', 'lot') if rng.random() < 0.7}
            kw = {('batch' if l == 'lot' else l) + '_vrtn_mdl': enc(l, vt, rng) for l in dd}
            spec[c] = (vt, dd)
            vr[c] = EnvVrtnMdl(**kw, vrtn_type=vt)
        else:
            spec[c] = None
    if rng.random() < 0.5:
        return PhysTestEnv(env_vrtns=vr), spec
    for c, m in vr.items():
        m.name = c
    return PhysTestEnv(env_vrtns=list(vr.values())), spec


@clause(100, funcs='PhysTestEnv.gen_env_cond_vals, vrtn_mdl, DegPrmMdl.get_dependencies, CircPrmMdl.get_dependencies')
def condition_values(rng, t):
    """every parameter gets exactly the conditions its models depend on, per lot, chip, device; batch and chip draws are
    shared by all parameters; unvaried conditions are exact; sensors share only the batch draw"""
    dev, deps = mk(rng)
    conds = {c: float(rng.integers(1, 9)) + 0.5 for c in pick(rng, NAMES, int(rng.integers(1, 4)))}
    env, spec = mk_env(rng, conds)
    L, C = int(rng.integers(1, 3)), int(rng.integers(1, 4))
    target = pick(rng, ['stress', 'measure'])
    counts = {}
    prm = [p for p in deps if not (target == 'stress' and p == 'circ')]
    prm = [p for p in prm if rng.random() < 0.85] or prm[:1]
    counts = {p: int(rng.integers(1, 4)) for p in prm}
    if target == 'measure':
        for c in conds:
            if rng.random() < 0.4:
                counts[c] = int(rng.integers(1, 4))
        keys = [list(counts)[int(i)] for i in rng.permutation(len(counts))]
        counts = {k: counts[k] for k in keys}
    info = SimReport(TestSpec([], C, L))
    info.dev_counts = dict(counts)
    t.note(conds=conds, variation=spec, counts=counts, dims=(L, C), target=target, deps=deps)
    cc, cn = dict(conds), dict(counts)
    arg = counts if target == 'measure' else list(counts)
    got = env.gen_env_cond_vals(conds, arg, info, dev, target)
    t.ok(conds == cc and counts == cn and info.dev_counts == cn, 'arguments untouched')
    t.eq(sorted(got), sorted(counts), 'one entry per requested parameter')
    batch, chips, devs, sensors = {}, {}, {}, {}
    for p in counts:
        if p in deps:
            want = {c for c in deps[p][target] if c in conds}
            t.eq(sorted(got[p]), sorted(want), f'conditions generated for {p}')
        else:
            t.eq(sorted(got[p]), [p], f'sensor condition {p}')
        for c, v in got[p].items():
            v = np.asarray(v)
            if p in deps:
                t.eq(v.shape, (L, C, counts[p]), f'shape of {p}/{c}')
            else:
                t.eq(v.size, counts[p], f'one value per sensor of {p}')
                v = v.reshape((1, counts[p], 1))
            if spec[c] is None:
                t.eq(v, np.full(v.shape, conds[c]), f'{p}/{c}: exact without a variation model')
                continue
            vt, dd = spec[c]
            check_layers(t, v, vt, dd, conds[c], GROUP, f'{p}/{c}')
            codes = {i: decode(float(v[i]), vt, dd, conds[c]) for i in np.ndindex(*v.shape)}
            if 'lot' in dd:
                batch.setdefault(c, set()).update(x['lot'] for x in codes.values())
            if 'chp' in dd and p in deps:
                chips.setdefault(c, {})
                for i, x in codes.items():
                    chips[c].setdefault(i[:2], set()).add(x['chp'])
            if 'chp' in dd and p not in deps:
                sensors.setdefault(c, set()).update(x['chp'] for x in codes.values())
            if 'dev' in dd:
                mine = [x['dev'] for x in codes.values()]
                old = devs.setdefault(c, set())
                t.ok(not (set(mine) & old), f'{p}/{c}: device draws are independent between parameters')
                old.update(mine)
    for c, s in batch.items():
        t.eq(len(s), 1, f'{c}: one batch draw for the whole step', draws=sorted(s))
    for c, by in chips.items():
        t.ok(not any(s & sensors.get(c, set()) for s in by.values()), f'{c}: sensors are varied independently of the chips')
        t.ok(all(len(s) == 1 for s in by.values()), f'{c}: all parameters on a chip share its chip draw', draws={str(k): sorted(v) for k, v in by.items()})


@clause(30, funcs='PhysTestEnv.gen_env_cond_vals, _sim_meas_step')
def missing_param(rng, t):
    """measuring something that is neither a parameter nor a condition raises MissingParamError"""
    dev, deps = mk(rng)
    conds = {c: 1.5 for c in pick(rng, NAMES, int(rng.integers(0, 3)))}
    env, spec = mk_env(rng, conds)
    bad = pick(rng, ['nope', 'PA', 'mystery', 'ma'])
    counts = {'pa' if 'pa' in deps else list(deps)[0]: 1} if rng.random() < 0.5 else {}
    counts = {**counts, bad: 2} if rng.random() < 0.5 else {bad: 1, **counts}
    req = {c for p in counts if p in deps for c in deps[p]['measure']}
    conds.update({c: 1.5 for c in req})
    t.note(conds=conds, counts=counts)
    st = gen_init_state(dev, {p: 3 for p in deps})
    t.raises(MissingParamError, lambda: simulate(TestSpec([MeasSpec(counts, conds)]), dev, env, st), 'undefined measurement refused')


@clause(40, funcs='simulate, PhysTestEnv.gen_env_cond_vals')
def conditions_reach_equations(rng, t):
    """in an ideal environment the conditions seen by every equation are exactly the ones of the step, per device"""
    w = W.World(rng)
    steps = w.mk_test(rng, int(rng.integers(1, 5)))
    if not any(type(s) is MeasSpec and s.measurements for s in steps):
        steps.append(MeasSpec({p: 1 for p in w.mdls}, w.cond_vals(rng), 'last'))
    t.note(steps=[(s.name, s.conditions) for s in steps])
    rep, snaps, calls, _ = W.run_steps(w, steps)
    m = rep.measurements
    for i, s in enumerate(steps):
        for key, cs in calls[i].items():
            if type(s) is StrsSpec and key[1] in ('cond', 'circ', 'init'):
                t.eq(len(cs), 0, f'step {i}: {key} not evaluated while stressing')
            for kw in cs:
                for c in w.conds:
                    if c in kw:
                        t.ok(np.all(kw[c] == s.conditions[c]), f'step {i}: {key} sees condition {c} exactly', got=kw[c], want=s.conditions[c])
        if type(s) is MeasSpec:
            for c in w.conds:
                if c in s.measurements:
                    rows = m[(m['step #'] == i) & (m['param'] == c)]
                    t.ok(len(rows) == s.measurements[c] and all(rows['measured'] == s.conditions[c]), f'step {i}: sensors of {c}')


@clause(40, funcs='PhysTestEnv.vrtn_mdl, meas_instm, __init__')
def lookups(rng, t):
    """models and instruments are found by the name they were registered under, ideal defaults otherwise"""
    names = pick(rng, [NAMES, ALIKE])
    vr = {c: EnvVrtnMdl(enc('dev', 'offset', rng)) for c in pick(rng, names, 2)}
    im = {c: MeasInstrument(precision=2) for c in pick(rng, names + ['pa'], 2)}
    t.note(vr=list(vr), im=list(im))
    env = PhysTestEnv(dict(vr), dict(im))
    for c in names + ['pa', 'zz']:
        if c in vr:
            t.ok(env.vrtn_mdl(c) is vr[c], f'variation model of {c}')
        else:
            t.eq(env.vrtn_mdl(c).gen_env_vrtns(4.5, 2, 2, 2), np.full((2, 2, 2), 4.5), f'{c} without model is exact')
        if c in im:
            t.ok(env.meas_instm(c) is im[c], f'instrument of {c}')
        else:
            t.eq(env.meas_instm(c).measure(np.array([1.23456789, -2.0])), np.array([1.23456789, -2.0]), f'{c} without instrument is ideal')


@clause(40, funcs='DegPrmMdl.get_dependencies, CircPrmMdl.get_dependencies')
def dependencies(rng, t):
    """a model depends on exactly the conditions its equations take, whatever their names and whatever latents it has"""
    names = [ALIKE[int(i)] for i in rng.permutation(len(ALIKE))][: int(rng.integers(2, 6))]
    want, mechs = set(), {}
    for m in ['ma', 'mb', 'mc', 'md', 'me'][: int(rng.integers(1, 6))]:
        use = pick(rng, names, int(rng.integers(0, 3)))
        want |= set(use)
        mechs[m] = pick(rng, [DegMechMdl, FailMechMdl])(eqn(['time'] + use), time_unit='h')
    shift = pick(rng, names, int(rng.integers(0, 3)))
    # latent variables of the parameter itself may be called like a condition
    lat = {c: LatentVar(deter_val=1.5) for c in names if rng.random() < 0.3 and c not in ('var', 'mdl')}
    t.note(conditions=names, latents=sorted(lat), stress=sorted(want), shift=shift)
    p = DegPrmMdl(mechs, cond_shift_mdl=CondShiftMdl(eqn(shift)), **lat)
    conds = {c: 1.0 for c in names}
    t.eq(sorted(set(p.get_dependencies(conds, 'stress'))), sorted(want), 'stress dependencies')
    t.eq(sorted(set(p.get_dependencies(conds, 'measure'))), sorted(set(shift)), 'measurement dependencies')
    use = pick(rng, names, int(rng.integers(0, 3)))
    c = CircPrmMdl(eqn(['pa'] + use))
    t.eq(sorted(set(c.get_dependencies(conds, 'measure'))), sorted(set(use)), 'circuit dependencies')
