import copy
from datetime import timedelta

import numpy as np
import pandas as pd

from bounded import lib, world as W
from bounded.gen import pick

lib.load()
from gerabaldi import simulate, gen_init_state  # noqa: E402
from gerabaldi.models import *  # noqa: E402,F403

CLAUSES, clause = lib.registry()


def mk(rng, mark):
    """a device whose equations log the marker condition they are evaluated under"""
    log = []

    def fail(time, mark):
        log.append(('stress', float(np.ravel(mark)[0])))
        return time * 0.0

    def shift(mark):
        log.append(('measure', float(np.ravel(mark)[0])))
        return mark * 0.0

    dev = DeviceMdl({'p': DegPrmMdl({'f': FailMechMdl(fail)}, cond_shift_mdl=CondShiftMdl(shift))})
    return dev, log


def mk_steps(rng, n):
    steps, marks = [], rng.permutation(1000)[:n]
    for i in range(n):
        conds = {'mark': float(marks[i])}
        if rng.random() < 0.4:
            conds['temp'] = float(rng.integers(300, 400))
        if rng.random() < 0.6:
            d = timedelta(hours=int(rng.integers(1, 500))) if rng.random() < 0.5 else timedelta(seconds=int(rng.integers(1, 10**6)), microseconds=int(rng.integers(0, 10**6)))
            steps.append(StrsSpec(conds, d, pick(rng, ['soak', 'burn-in', 'unspecified', f's{i}'])))
        else:
            what = {'p': int(rng.integers(1, 3))}
            for c in conds:
                if rng.random() < 0.25:
                    what[c] = int(rng.integers(1, 3))  # conditions may be measured too
            steps.append(MeasSpec(what, conds, pick(rng, ['room', 'hot', f'm{i}'])))
    if len(steps) > 1 and rng.random() < 0.4:
        steps.insert(int(rng.integers(len(steps))), steps[int(rng.integers(len(steps)))])
    return steps


def check(t, steps, rep, log, start):
    s = rep.test_summary
    t.eq(len(s), len(steps), 'one summary row per step')
    now = start
    for i, st in enumerate(steps):
        row = s.iloc[i]
        stress = type(st) is StrsSpec
        t.eq(row['step name'], st.name, f'row {i} name')
        t.eq(row['step type'], 'stress' if stress else 'measure', f'row {i} type')
        t.eq(int(row['step number']), i, f'row {i} number')
        dur = st.duration if stress else timedelta()
        for col, want in (('duration', dur), ('start time', now), ('end time', now + dur)):
            t.ok(pd.Timedelta(row[col]) == pd.Timedelta(want), f'row {i} {col}', got=row[col], want=want)
        now += dur
        for c in ('mark', 'temp'):
            if c in st.conditions:
                t.eq(float(row[c]), st.conditions[c], f'row {i} condition {c}')
            elif c in s.columns:
                t.ok(pd.isna(row[c]), f'row {i} has no condition {c}', got=row[c])
    want = [('stress' if type(st) is StrsSpec else 'measure', st.conditions['mark']) for st in steps]
    t.ok(log == want, 'every step executed exactly once, in order', got=log, want=want)
    m = rep.measurements
    if len(m):
        now, times = start, {}
        for i, st in enumerate(steps):
            times[i] = now
            now += st.duration if type(st) is StrsSpec else timedelta()
        for _, r in m.iterrows():
            t.ok(pd.Timedelta(r['time']) == pd.Timedelta(times[int(r['step #'])]), 'measurement time is the simulated time of its step', got=r['time'], step=r['step #'])


@clause(40, funcs='simulate, _sim_stress_step, _sim_meas_step, SimReport.add_summary_report')
def timeline(rng, t):
    """one summary row per step with name, type, number, conditions; start_i = end_{i-1}; first starts at zero"""
    dev, log = mk(rng, 'mark')
    steps = mk_steps(rng, int(rng.integers(0, 7)))
    t.note(steps=[(s.name, type(s).__name__, getattr(s, 'duration', None), s.conditions) for s in steps])
    if not any(type(s) is MeasSpec for s in steps):
        steps.append(MeasSpec({'p': 1}, {'mark': 5000.0}, 'last'))
    rep = simulate(TestSpec(list(steps)), dev, PhysTestEnv())
    check(t, steps, rep, log, timedelta())


@clause(25, funcs='simulate, gen_init_state')
def timeline_from_state(rng, t):
    """the first row starts at the elapsed time of the supplied starting state"""
    dev, log = mk(rng, 'mark')
    steps = mk_steps(rng, int(rng.integers(1, 6)))
    el = timedelta(hours=float(rng.integers(0, 1000)), seconds=int(rng.integers(0, 3600)))
    if rng.random() < 0.2:
        el = timedelta()
    t.note(elapsed=el, steps=[(s.name, type(s).__name__, getattr(s, 'duration', None)) for s in steps])
    st = gen_init_state(dev, {'p': 2}, elapsed_time=el)
    log.clear()
    rep = simulate(TestSpec(list(steps)), dev, PhysTestEnv(), st)
    check(t, steps, rep, log, el)
    log.clear()
    rep = simulate(TestSpec(list(steps)), dev, PhysTestEnv(), st)
    check(t, steps, rep, log, el)


@clause(20, funcs='SimReport.add_summary_report')
def summary_append(rng, t):
    """add_summary_report appends rows at the end, leaving the earlier rows unchanged"""
    r = SimReport(TestSpec())
    rows = []
    for i in range(int(rng.integers(1, 6))):
        d = dict(rows[-1]) if rows and rng.random() < 0.2 else {'step name': f'n{i}', 'step number': i, 'duration': timedelta(hours=i)}
        if rng.random() < 0.5:
            d['temp'] = float(i)
        rows.append(d)
        r.add_summary_report(pd.DataFrame(d, index=[0]))
        s = r.test_summary
        t.eq(len(s), len(rows), 'row count')
        t.eq(list(s.index), list(range(len(rows))), 'row index')
        for k, d0 in enumerate(rows):
            for c, v in d0.items():
                t.ok(s.iloc[k][c] == v, f'row {k} {c}', got=s.iloc[k][c], want=v)


@clause(2, funcs='simulate, _sim_stress_step, _sim_meas_step')
def long_test(rng, t):
    """the timeline holds for tests of many steps"""
    dev, log = mk(rng, 'mark')
    n = int(pick(rng, [130, 300, 700]))
    steps = []
    for i in range(n):
        if rng.random() < 0.7:
            steps.append(StrsSpec({'mark': float(i)}, timedelta(hours=int(rng.integers(1, 500)), microseconds=int(rng.integers(0, 10**6))), f's{i % 3}'))
        else:
            steps.append(MeasSpec({'p': 1}, {'mark': float(i)}, f'm{i % 3}'))
    t.note(steps=n)
    rep = simulate(TestSpec(list(steps)), dev, PhysTestEnv())
    check(t, steps, rep, log, timedelta())
