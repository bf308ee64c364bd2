from datetime import timedelta

import numpy as np
import pandas as pd

from bounded import lib, world as W
from bounded.gen import pick, dims

lib.load()
from gerabaldi import simulate, gen_init_state  # noqa: E402
from gerabaldi.models import *  # noqa: E402,F403

CLAUSES, clause = lib.registry()


def code(l, c, d):
    return l * 1e4 + c * 1e2 + d


def coded(L, C, D, base=0.0):
    return np.fromfunction(lambda l, c, d: base + code(l, c, d), (L, C, D))


@clause(60, funcs='SimReport.format_measurements')
def format_table(rng, t):
    """format_measurements yields one row per value, labelled with the (lot, chip, device) the value was taken at"""
    L, C, D = dims(rng, 5)
    vals = coded(L, C, D)
    tm, st = timedelta(hours=int(rng.integers(0, 99))), int(rng.integers(0, 50))
    t.note(shape=(L, C, D), time=tm, step=st)
    r = rng.random()
    if r < 0.15:
        L, vals, arg = 1, vals[0], vals[0]
    elif r < 0.3:
        L = C = 1
        vals = arg = coded(1, 1, D)[0, 0]
    elif r < 0.4:
        arg = vals.tolist()
    else:
        arg = vals
    df = SimReport.format_measurements(arg, 'p', tm, st, 'parameter')
    t.eq(len(df), L * C * D, 'one row per value')
    lab = {(int(r['lot #']), int(r['chip #']), int(r['device #'])): r for _, r in df.iterrows()}
    t.eq(len(lab), L * C * D, 'labels are distinct')
    for (l, c, d), row in lab.items():
        t.ok(0 <= l < L and 0 <= c < C and 0 <= d < D, 'labels numbered from zero', label=(l, c, d))
        t.eq(float(row['measured']), code(l, c, d), 'value belongs to its label', label=(l, c, d))
        t.ok(row['param'] == 'p' and int(row['step #']) == st and pd.Timedelta(row['time']) == pd.Timedelta(tm), 'name, step and time columns')
    n = int(rng.integers(1, 9))
    cv = np.arange(float(n)).reshape((1, n, 1)) if rng.random() < 0.6 else np.arange(float(n))
    df = SimReport.format_measurements(cv, 'temp', tm, st, 'condition')
    t.eq(sorted(df['measured']), list(np.arange(float(n))), 'condition rows')
    t.ok(all(df['param'] == 'temp') and all(df['step #'] == st) and all(pd.Timedelta(x) == tm for x in df['time']), 'condition columns')


def mk_dev(rng, L, C, cnt):
    """device whose true parameter values encode lot, chip, device and parameter"""
    prms, base = {}, {}
    for i, p in enumerate(pick(rng, ['pa', 'pb', 'pc'], int(rng.integers(1, 4)))):
        prms[p] = DegPrmMdl({'m': FailMechMdl(lambda time: time * 0.0)})
        base[p] = (i + 1) * 1e6
    if rng.random() < 0.6:
        r = pick(rng, list(prms))
        ns = {}
        exec(f'def eq({r}):\n    return {r} + 1e8', ns)
        prms['circ'] = CircPrmMdl(ns['eq'])
        base['circ'] = base[r] + 1e8
    return DeviceMdl(prms), base


@clause(40, funcs='simulate, _sim_meas_step, SimReport.format_measurements, add_measurements, CircPrmMdl.calc_circ_vals')
def measurement_rows(rng, t):
    """each measurement step adds exactly lots*chips*requested rows per parameter (correctly labelled, first devices) and
    the requested number of rows per condition, stamped with step number and time; earlier rows are unaltered"""
    L, C = int(rng.integers(1, 4)), int(rng.integers(1, 5))
    dev, base = mk_dev(rng, L, C, None)
    steps, now = [], timedelta()
    for i in range(int(rng.integers(1, 6))):
        if rng.random() < 0.3:
            steps.append(StrsSpec({'temp': 300.0}, timedelta(hours=int(rng.integers(1, 50))), f's{i}'))
        else:
            req = [p for p in base if rng.random() < 0.7] + [c for c in ('temp', 'vdd') if rng.random() < 0.4]
            req = [req[int(k)] for k in rng.permutation(len(req))]
            steps.append(MeasSpec({p: int(rng.integers(1, 5)) for p in req}, {'temp': 300.0 + i, 'vdd': 1.0 + i}, f'm{i}'))
    if not any(type(s) is MeasSpec and s.measurements for s in steps):
        steps.append(MeasSpec({list(base)[0]: 2, 'temp': 3}, {'temp': 299.0, 'vdd': 9.0}, 'last'))
    t.note(lots=L, chps=C, steps=[(s.name, getattr(s, 'measurements', None)) for s in steps], prms=list(base))
    need = {}
    for s in steps:
        for p, q in getattr(s, 'measurements', {}).items():
            need[p] = max(q, need.get(p, 0))
    D = max(need.values())
    extra = int(rng.integers(0, 3))
    st = gen_init_state(dev, {p: D + extra for p in base}, C, L)
    for p in st.curr_prm_vals:
        st.curr_prm_vals[p] = coded(L, C, D + extra, base[p])
        st.init_prm_vals[p] = coded(L, C, D + extra, base[p])
    rep = simulate(TestSpec(list(steps), C, L), dev, PhysTestEnv(), st)
    m = rep.measurements
    total = 0
    for i, s in enumerate(steps):
        if type(s) is StrsSpec:
            now += s.duration
            continue
        for p, q in s.measurements.items():
            rows = m[(m['step #'] == i) & (m['param'] == p)]
            if p in base:
                t.eq(len(rows), L * C * q, f'step {i}: rows for {p}')
                got = {(int(r['lot #']), int(r['chip #']), int(r['device #'])): float(r['measured']) for _, r in rows.iterrows()}
                want = {(l, c, d): base[p] + code(l, c, d) for l in range(L) for c in range(C) for d in range(q)}
                t.ok(got == want, f'step {i}: labels and values of {p}', got=got, want=want)
            else:
                t.eq(len(rows), q, f'step {i}: rows for condition {p}')
                t.ok(all(float(x) == s.conditions[p] for x in rows['measured']), f'step {i}: values of condition {p}')
            t.ok(all(pd.Timedelta(x) == pd.Timedelta(now) for x in rows['time']), f'step {i}: time of {p}')
            total += len(rows)
    t.eq(len(m), total, 'no other rows')
    t.eq(list(m.index), list(range(len(m))), 'rows numbered consecutively')


@clause(20, funcs='SimReport.add_measurements')
def accumulation(rng, t):
    """add_measurements keeps all earlier rows unchanged and appends the new ones"""
    r = SimReport(TestSpec())
    rows = []
    for i in range(int(rng.integers(1, 5))):
        L, C, D = dims(rng, 3)
        df = SimReport.format_measurements(coded(L, C, D, i * 1e6), f'p{i % 2}', timedelta(hours=i), i, 'parameter')
        keep = df.copy()
        r.add_measurements(df)
        rows.append(keep)
        got = r.measurements
        want = pd.concat(rows, ignore_index=True)
        t.ok(len(got) == len(want) and all(list(got[c]) == list(want[c]) for c in want.columns), f'after {i + 1} additions')


@clause(20, funcs='simulate, _sim_meas_step, SimReport.add_measurements')
def undefined_values(rng, t):
    """values that are not numbers are reported like any other: a row per device"""
    L, C, q = int(rng.integers(1, 3)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    dev, base = mk_dev(rng, L, C, None)
    odd = float(pick(rng, [np.nan, np.inf, -np.inf, 0.0]))
    some = rng.random() < 0.5
    t.note(lots=L, chps=C, devs=q, value=odd, some=some)
    st = gen_init_state(dev, {p: q for p in base}, C, L)
    for p in st.curr_prm_vals:
        v = coded(L, C, q, base[p])
        v[(rng.random(v.shape) < 0.5) if some else np.ones(v.shape, bool)] = odd
        st.curr_prm_vals[p] = v
    keep = {p: v.copy() for p, v in st.curr_prm_vals.items()}
    steps = [MeasSpec({p: q for p in base}, {'temp': 300.0}, 'm') for _ in range(2)]
    m = simulate(TestSpec(steps, C, L), dev, PhysTestEnv(), st).measurements
    t.eq(len(m), 2 * L * C * q * len(base), 'one row per device, parameter and step')
    for p in keep:
        for i in range(2):
            rows = m[(m['step #'] == i) & (m['param'] == p)]
            got = np.full((L, C, q), 5.5)
            for _, r in rows.iterrows():
                got[int(r['lot #']), int(r['chip #']), int(r['device #'])] = r['measured']
            t.eq(got, keep[p], f'step {i}: values of {p}')


@clause(6, funcs='SimReport.format_measurements')
def long_axes(rng, t):
    """labels stay right for hundreds of lots, chips or devices"""
    n = int(pick(rng, [130, 260, 300, 1000]))
    L, C, D = [(n, 1, 2), (2, n, 1), (1, 2, n), (n, 2, 1)][int(rng.integers(4))]
    vals = np.arange(float(L * C * D)).reshape((L, C, D))
    t.note(shape=(L, C, D))
    df = SimReport.format_measurements(vals, 'p', timedelta(hours=1), 3, 'parameter')
    t.eq(len(df), L * C * D, 'one row per value')
    l, c, d = (df[x].to_numpy(dtype=int) for x in ('lot #', 'chip #', 'device #'))
    t.ok(all((l >= 0) & (l < L) & (c >= 0) & (c < C) & (d >= 0) & (d < D)), 'labels in range')
    t.eq(vals[l, c, d], df['measured'].to_numpy(float), 'value belongs to its label')
    t.eq(len(set(zip(l.tolist(), c.tolist(), d.tolist()))), L * C * D, 'labels are distinct')
