from datetime import timedelta

import numpy as np

from bounded import lib, world as W
from bounded.gen import dims

lib.load()
from gerabaldi import simulate, gen_init_state  # noqa: E402
from gerabaldi.models import *  # noqa: E402,F403

CLAUSES, clause = lib.registry()


@clause(50, funcs='_loop_compute, _get_single_index')
def loop_compute(rng, t):
    """_loop_compute(eqn, args, dims)[i,j,k] = eqn(args at [i,j,k]) with scalars passed through"""
    lc = lib.private('gerabaldi.helpers', '_loop_compute')
    L, C, D = dims(rng)
    arrs = {n: rng.uniform(-5, 5, (L, C, D)) for n in ('a', 'b', 'time')}
    if rng.random() < 0.3:
        arrs['b'] = arrs['b'].tolist()
    sc = {'s': float(rng.uniform(1, 2)), 'n': int(rng.integers(1, 5)), 'f': np.float64(rng.uniform(1, 2))}
    t.note(dims=(L, C, D))
    f = lambda a, b, time, s, n, f: 1000 * a + 10 * b * s + time * n + f * a * b  # noqa: E731

    def eqn(a, b, time, s, n, f_):
        if not all(np.ndim(x) == 0 for x in (a, b, time, s, n, f_)):
            raise ValueError('array')
        return f(a, b, time, s, n, f_)

    got = lc(eqn, {**arrs, 's': sc['s'], 'n': sc['n'], 'f_': sc['f']}, (L, C, D))
    A = {k: np.asarray(v) for k, v in arrs.items()}
    t.close(got, f(A['a'], A['b'], A['time'], sc['s'], sc['n'], sc['f']), 'elementwise values', rtol=1e-13)


@clause(2, funcs='_loop_compute, _get_single_index')
def many_samples(rng, t):
    """the same for many lots, chips or devices, to full precision"""
    lc = lib.private('gerabaldi.helpers', '_loop_compute')
    sh = [int(x) for x in rng.permutation([int(rng.integers(1, 4)), int(rng.integers(2, 5)), int(rng.integers(40, 300))])]
    a, b = rng.uniform(-5, 5, sh), rng.uniform(1e-9, 1e9, sh)
    t.note(dims=sh)

    def eqn(a, b, s):
        if np.ndim(a) or np.ndim(b):
            raise ValueError('array')
        return a * b + s

    t.close(lc(eqn, {'a': a, 'b': b, 's': 0.5}, tuple(sh)), a * b + 0.5, 'elementwise values', rtol=1e-13)


@clause(15, funcs='_loop_compute, _get_single_index')
def nested_dicts(rng, t):
    """nested dictionaries of arrays are indexed recursively"""
    lc = lib.private('gerabaldi.helpers', '_loop_compute')
    L, C, D = dims(rng)
    a, b = rng.uniform(size=(L, C, D)), rng.uniform(size=(L, C, D))
    got = lc(lambda x, inner: x + 10 * inner['y'] + inner['z'], {'x': a, 'inner': {'y': b, 'z': 3.0}}, (L, C, D))
    t.note(dims=(L, C, D))
    t.close(got, a + 10 * b + 3, 'nested values', rtol=1e-13)


@clause(40, funcs='simulate; scalar fallbacks of MechMdl.calc_deg_vals, DegPrmMdl.calc_deg_vals/calc_cond_shifted_vals, CondShiftMdl.calc_cond_vals, DegMechMdl.calc_equiv_strs_time')
def scalar_equals_array(rng, t):
    """a device whose equations only accept single values simulates identically to the array-capable one"""
    w = W.World(rng, scalar_p=0.0, circ=False)
    n = int(rng.integers(2, 5))
    steps = w.mk_test(rng, n, min_stress=1)
    steps.append(MeasSpec({p: int(rng.integers(1, 3)) for p in w.mdls}, w.cond_vals(rng), 'last'))
    st = gen_init_state(w.dev, W.need_counts(w, steps), w.chps, w.lots)
    eqns = {k: e for k, e in W.all_eqns(w).items() if k[1] not in ('init', 'circ')}
    on = [k for k in eqns if rng.random() < 0.6] or list(eqns)[:1]
    t.note(scalar=on, steps=[s.name for s in steps], lots=w.lots, chps=w.chps)
    a = simulate(TestSpec(list(steps), w.chps, w.lots), w.dev, PhysTestEnv(), st).measurements
    for k in on:
        eqns[k].scalar = True
    b = simulate(TestSpec(list(steps), w.chps, w.lots), w.dev, PhysTestEnv(), st).measurements
    t.eq(len(b), len(a), 'row count')
    for c in ('param', 'step #', 'device #', 'chip #', 'lot #'):
        t.ok(all((x == y) or (x != x and y != y) or (x is None and y is None) for x, y in zip(a[c], b[c])), f'column {c}')
    t.close(b['measured'].to_numpy(float), a['measured'].to_numpy(float), 'measured values', rtol=1e-7)


@clause(30, funcs='MechMdl.calc_deg_vals, CondShiftMdl.calc_cond_vals')
def sample_arguments(rng, t):
    """each single-value call receives exactly one sample's own time, latents and conditions"""
    L, C, D = dims(rng)
    seen = []

    def eqn(time, temp, a):
        for x in (time, temp, a):
            if np.ndim(x) and np.size(x) > 1:
                raise ValueError('array')
        seen.append((float(time), float(temp), float(a)))
        return float(time) * 0 + float(temp)

    tm, temp, a = (rng.uniform(1, 9, (L, C, D)) for _ in range(3))
    # samples that hardly differ are still their own samples
    tm, temp, a = (5.0 + x * 1e-6 if rng.random() < 0.3 else x for x in (tm, temp, a))
    t.note(dims=(L, C, D))
    if L * C * D == 1:
        raise lib.Skip
    mdl = DegMechMdl(eqn, time_unit='h', a=LatentVar(deter_val=1))
    got = mdl.calc_deg_vals(tm, np.zeros((L, C, D)), {'temp': temp, 'x': temp * 3}, {'a': a, 'zz': a}, (L, C, D))
    want = sorted(zip(tm.ravel(), temp.ravel(), a.ravel()))
    t.ok(sorted(seen) == want, 'argument triples', got=sorted(seen), want=want)
    t.eq(got, temp, 'results at their own sample')
    cm = CondShiftMdl(lambda temp, a: eqn(0.0, temp, a), a=LatentVar(deter_val=1))
    t.eq(cm.calc_cond_vals({'temp': temp}, {'a': a}, (L, C, D)), temp, 'conditional shift results at their own sample')
