import copy
from datetime import timedelta

import numpy as np
import pandas as pd

from bounded import lib, world as W
from bounded.gen import pick

lib.load()
from gerabaldi import simulate, gen_init_state  # noqa: E402
from gerabaldi.models import *  # noqa: E402,F403

CLAUSES, clause = lib.registry()

SKIP = {'_generator', 'calls', '_curr_step'}


def finger(o, depth=0, seen=None):
    """structural fingerprint of a model object: configuration, not random generator state"""
    seen = seen if seen is not None else {}
    if depth > 14:
        return '...'
    if o is None or isinstance(o, (bool, int, float, str, timedelta, np.generic)):
        return repr(o)
    if isinstance(o, np.ndarray):
        return ('arr', o.shape, str(o.dtype), o.tobytes() if o.dtype != object else repr(o.tolist()))
    if isinstance(o, dict):
        return ('dict', tuple((repr(k), finger(v, depth + 1, seen)) for k, v in o.items() if k not in SKIP))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(finger(v, depth + 1, seen) for v in o))
    if isinstance(o, pd.DataFrame):
        return ('df', o.to_json(default_handler=str))
    if callable(o) and not hasattr(o, '__dict__') or isinstance(o, W.Eqn) or type(o).__name__ in ('function', 'builtin_function_or_method', 'method', 'ufunc', 'odict_keys', 'dict_keys', 'mappingproxy'):
        return ('fn', getattr(o, '__name__', str(type(o))), id(o) if not callable(o) or isinstance(o, W.Eqn) else 0)
    if id(o) in seen:
        return ('ref', seen[id(o)])
    seen[id(o)] = len(seen)
    items = dict(getattr(o, '__dict__', {}))
    for c in type(o).__mro__:
        for s in getattr(c, '__slots__', []) or []:
            if hasattr(o, s):
                items[s] = getattr(o, s)
    if not items:
        return ('obj', type(o).__name__)
    return ('obj', type(o).__name__, tuple((k, finger(v, depth + 1, seen)) for k, v in sorted(items.items()) if k not in SKIP))


def diff(a, b, path=''):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f'{path}/{a[0] if isinstance(a[0], str) else i}')
            if d:
                return d
    return f'{path}: {lib.show(a, 120)} -> {lib.show(b, 120)}'


def env_for(rng, conds):
    if rng.random() < 0.4:
        return PhysTestEnv()
    vr = {c: EnvVrtnMdl(Uniform(-0.01, 0.01), Uniform(-0.01, 0.01), Uniform(-0.01, 0.01), pick(rng, ['offset'])) for c in conds if rng.random() < 0.7}
    im = {n: MeasInstrument(precision=4, error=Normal(0, 0.001), meas_lims=(-1e6, 1e6)) for n in list(conds) + ['pa', 'pb'] if rng.random() < 0.5}
    return PhysTestEnv(vr, im)


@clause(50, funcs='simulate, gen_init_state, _sim_stress_step, _sim_meas_step')
def inputs_untouched(rng, t):
    """simulate leaves the test, the device model, the environment and the supplied state exactly as they were"""
    w = W.World(rng, scalar_p=0.2 if rng.random() < 0.3 else 0.0)
    steps = w.mk_test(rng, int(rng.integers(1, 6)))
    if not any(type(s) is MeasSpec and s.measurements for s in steps):
        steps.append(MeasSpec({p: 2 for p in w.mdls}, w.cond_vals(rng), 'last'))
    t.note(steps=[(s.name, getattr(s, 'measurements', None)) for s in steps], prms=list(w.mdls))
    spec = TestSpec(list(steps), w.chps, w.lots, 'n', 'd')
    env = env_for(rng, w.conds)
    st = gen_init_state(w.dev, W.need_counts(w, steps), w.chps, w.lots) if rng.random() < 0.7 else None
    objs = {'test': spec, 'device': w.dev, 'environment': env, 'state': st, 'steps': list(spec.steps), 'conditions': [s.conditions for s in steps]}
    ids = [id(s) for s in spec.steps]
    before = {k: finger(v) for k, v in objs.items()}
    simulate(spec, w.dev, env, st)
    t.eq([id(s) for s in spec.steps], ids, 'test steps are the same objects')
    for k, v in objs.items():
        after = finger(v)
        t.ok(after == before[k], f'{k} unchanged by simulate', difference=diff(before[k], after))


@clause(40, funcs='simulate, SimState')
def repeatable(rng, t):
    """from one initial state with deterministic conditions and instruments every repetition gives identical results,
    whatever was simulated in between"""
    w = W.World(rng)
    steps = w.mk_test(rng, int(rng.integers(2, 6)), min_stress=1)
    steps.append(MeasSpec({p: 2 for p in w.mdls}, w.cond_vals(rng), 'last'))
    st = gen_init_state(w.dev, W.need_counts(w, steps), w.chps, w.lots, elapsed_time=pick(rng, [timedelta(), timedelta(hours=9)]))
    spec = TestSpec(list(steps), w.chps, w.lots)
    env = PhysTestEnv()
    t.note(steps=[(s.name, getattr(s, 'measurements', None)) for s in steps], prms=list(w.mdls))
    a = simulate(spec, w.dev, env, st)
    k = int(rng.integers(3))
    if k == 0:
        other = w.mk_test(rng, 3, min_stress=2)
        simulate(TestSpec(other + [MeasSpec({list(w.mdls)[0]: 1}, w.cond_vals(rng))], w.chps, w.lots), w.dev, env, st)
    elif k == 1:
        gen_init_state(w.dev, {p: 5 for p in w.mdls})
        simulate(spec, w.dev, env)
    b = simulate(spec, w.dev, env, st)
    for f in ('measurements', 'test_summary'):
        x, y = getattr(a, f), getattr(b, f)
        t.ok(list(x.columns) == list(y.columns) and len(x) == len(y), f'{f}: same table')
        for c in x.columns:
            t.ok(all(p == q or (pd.isna(p) and pd.isna(q)) for p, q in zip(x[c], y[c])), f'{f}: column {c} identical', a=list(x[c]), b=list(y[c]))
    t.ok(a.dev_counts == b.dev_counts, 'device counts of the reports')


@clause(30, funcs='gen_init_state, DeviceMdl.gen_init_state')
def quantities_untouched(rng, t):
    """generating an initial state leaves supplied counts and the device model configuration untouched"""
    w = W.World(rng)
    cnt = {p: int(rng.integers(1, 5)) for p in w.mdls if rng.random() < 0.6}
    if rng.random() < 0.3:
        cnt['temp'] = 3
    if not cnt:
        cnt = {list(w.mdls)[-1]: 2}
    t.note(counts=cnt, prms=list(w.mdls))
    before, fp = dict(cnt), finger(w.dev)
    gen_init_state(w.dev, cnt, 2, 2)
    t.ok(cnt == before and list(cnt) == list(before), 'counts untouched', got=cnt)
    t.ok(finger(w.dev) == fp, 'device model untouched', difference=diff(fp, finger(w.dev)))
    steps = [MeasSpec(dict(cnt), {}, 'm')]
    spec = TestSpec(steps, 1, 1)
    fs = finger(spec)
    gen_init_state(w.dev, quantity_info=SimReport(spec))
    t.ok(finger(spec) == fs, 'test specification untouched', difference=diff(fs, finger(spec)))
