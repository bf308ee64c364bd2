import copy
import json
import os
import shutil
import tempfile
from datetime import timedelta

import numpy as np
import pandas as pd

from bounded import lib, world as W
from bounded.gen import pick

lib.load()
from bounded.c01 import US, ALIAS  # noqa: E402
from gerabaldi import simulate  # noqa: E402
from gerabaldi.models import *  # noqa: E402,F403
from gerabaldi.exceptions import UserConfigError  # noqa: E402

CLAUSES, clause = lib.registry()
US1 = timedelta(microseconds=1)


def mk_report(rng):
    w = W.World(rng)
    steps = w.mk_test(rng, int(rng.integers(1, 5)))
    for s in steps:
        if type(s) is StrsSpec and rng.random() < 0.6:
            s.duration = timedelta(seconds=int(rng.integers(1, 10**6)), microseconds=int(rng.integers(0, 10**6)))
        if rng.random() < 0.4:
            s.conditions = {**s.conditions, 'extra': float(rng.uniform(0, 1e-6))}
    if rng.random() < 0.1:
        # nothing is measured
        steps = [s for s in steps if type(s) is StrsSpec]
        return simulate(TestSpec(steps, w.chps, w.lots, 'no measurements'), w.dev, PhysTestEnv())
    steps.append(MeasSpec({p: 2 for p in w.mdls} | ({w.conds[0]: 2} if rng.random() < 0.5 else {}), w.cond_vals(rng), 'last'))
    rep = simulate(TestSpec(steps, w.chps, w.lots, pick(rng, ['my test', 'unspecified', 'Ünï "q"', '', None, ' x ']), pick(rng, ['descr', 'none provided', 'a/b\nc', '', None, '12'])), w.dev, PhysTestEnv())
    scale = pick(rng, [1.0, 1e-9, 1e-13, 1e12, 1 / 3])
    rep.measurements['measured'] = rep.measurements['measured'] * scale
    if rng.random() < 0.2:
        rep.measurements.loc[0, 'measured'] = np.nan
    return rep


def val_eq(a, b):
    if a is None or b is None or (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b):
        return pd.isna(a) and pd.isna(b)
    if isinstance(a, (timedelta, pd.Timedelta)) or isinstance(b, (timedelta, pd.Timedelta)):
        return abs(pd.Timedelta(a) - pd.Timedelta(b)) <= pd.Timedelta(US1)
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return float(a) == float(b)


def same_frame(t, got, want, msg):
    t.eq(sorted(map(str, got.columns)), sorted(map(str, want.columns)), f'{msg}: columns')
    t.eq(len(got), len(want), f'{msg}: row count')
    t.eq([int(i) for i in got.index], [int(i) for i in want.index], f'{msg}: row order')
    for c in want.columns:
        for i, (a, b) in enumerate(zip(got[c], want[c])):
            t.ok(val_eq(a, b), f'{msg}: row {i} column {c}', got=a, want=b)


@clause(40, funcs='SimReport.export_to_json, SimReport.__init__(file), _convert_time')
def round_trip(rng, t):
    """load(export(report, unit)) restores names, all measurement and summary values, labels, conditions and times"""
    rep = mk_report(rng)
    unit = pick(rng, list(ALIAS))
    t.note(unit=unit, rows=len(rep.measurements), head=rep.measurements['measured'].head(3).tolist() if len(rep.measurements) else [])
    want, s0 = rep.measurements.copy(deep=True), rep.test_summary.copy(deep=True)
    if rng.random() < 0.3:
        # a report whose times were converted to numbers loads back as durations all the same
        before = pick(rng, [*ALIAS, None])
        t.note(converted_before=before)
        rep.convert_report_time(before)
    m0 = rep.measurements.copy(deep=True)
    plain = lambda: {k: v for k, v in vars(rep).items() if not k.startswith('_') and (v is None or isinstance(v, (str, int, float, dict)))}  # noqa: E731
    a0 = copy.deepcopy(plain())
    default = str(rep.export_to_json()['Time Units'])
    tmp = tempfile.mkdtemp(prefix='verif_c19_')
    try:
        sub = pick(rng, ['', 'a', 'a/b/c', 'deep/er'])
        f = os.path.join(tmp, sub, 'rep.json')
        out = rep.export_to_json(f, unit)
        t.ok(os.path.isfile(f), 'file written, missing folders created', path=f)
        with open(f) as h:
            content = json.load(h)
        if out is not None:
            t.ok(content == json.loads(json.dumps(out)), 'file holds the returned dictionary')
        ret = rep.export_to_json(time_unit=unit)
        t.ok(content == json.loads(json.dumps(ret)), 'returned dictionary equals the file content')
        same_frame(t, rep.measurements, m0, 'report measurements after export')
        same_frame(t, rep.test_summary, s0, 'report summary after export')
        t.ok(plain() == a0, 'the report itself does not change', got=plain(), want=a0)
        t.ok(str(rep.export_to_json()['Time Units']) == default, 'an export in another unit leaves the default unit of the report', default=default)
        got = SimReport(file=f)
        t.ok(got.test_name == rep.test_name and got.test_description == rep.test_description, 'name and description', got=(got.test_name, got.test_description))
        same_frame(t, got.measurements, want, 'measurements')
        same_frame(t, got.test_summary, s0, 'summary')
        for c in ('duration', 'start time', 'end time') if len(s0) else ():
            t.ok(all(isinstance(x, (timedelta, pd.Timedelta)) for x in got.test_summary[c]), f'{c} are durations again')
        # and again, through a second export in another unit
        u2 = pick(rng, list(ALIAS))
        f2 = os.path.join(tmp, 'second.json')
        got.export_to_json(f2, u2)
        again = SimReport(file=f2)
        for c in want.columns:
            if c != 'time':
                t.ok(all(val_eq(a, b) for a, b in zip(again.measurements[c], want[c])), f'second generation column {c}')
        t.ok(not len(want) or all(abs(pd.Timedelta(a) - pd.Timedelta(b)) <= pd.Timedelta(3 * US1) for a, b in zip(again.measurements['time'], want['time'])), 'second generation times')
    finally:
        shutil.rmtree(tmp)


@clause(25, funcs='SimReport.export_to_json')
def exported_times(rng, t):
    """times in the export are expressed in the chosen unit, which is recorded"""
    rep = mk_report(rng)
    if not len(rep.measurements):
        raise lib.Skip
    unit = pick(rng, list(ALIAS))
    t.note(unit=unit)
    d = rep.export_to_json(time_unit=unit)
    t.ok(d['Test Name'] == rep.test_name and d['Description'] == rep.test_description, 'name and description')
    rec = str(d['Time Units']).lower()
    t.ok(ALIAS.get(rec) == ALIAS[unit], 'recorded unit', got=d['Time Units'])
    m = d['Measurements']
    m = json.loads(m) if isinstance(m, str) else m
    got = m['time']
    vals = [got[k] for k in got] if isinstance(got, dict) else list(got)
    want = [pd.Timedelta(x).to_pytimedelta() // US1 / US[ALIAS[unit]] for x in rep.measurements['time']]
    t.close([float(x) for x in vals], want, 'exported times', rtol=1e-9, atol=1e-12)


@clause(12, funcs='SimReport.export_to_json')
def bad_unit(rng, t):
    """an unsupported unit is refused with UserConfigError and nothing is written"""
    rep = mk_report(rng)
    bad = pick(rng, ['minutes', 'H', 'weeks', 'year', ''])
    t.note(unit=bad)
    tmp = tempfile.mkdtemp(prefix='verif_c19_')
    try:
        f = os.path.join(tmp, 'x.json')
        t.raises(UserConfigError, lambda: rep.export_to_json(f, bad), 'bad unit refused')
        t.ok(not os.path.exists(f), 'nothing written')
    finally:
        shutil.rmtree(tmp)


@clause(2, funcs='SimReport.export_to_json, SimReport.__init__(file)')
def large_report(rng, t):
    """nothing of a long report is lost"""
    n = int(pick(rng, [150, 400]))
    dev = DeviceMdl({'p': DegPrmMdl({'m': FailMechMdl(lambda time, q: time * 0.0 + q, q=LatentVar(Normal(1, 0.3)))})})
    steps = []
    for i in range(n):
        steps += [StrsSpec({'temp': 300.0 + i}, timedelta(hours=1 + i % 7), f'stress {i}'), MeasSpec({'p': 2}, {'temp': 25.0}, f'measure {i}')]
    t.note(steps=len(steps))
    rep = simulate(TestSpec(steps, 3, 2, 'long'), dev, PhysTestEnv())
    tmp = tempfile.mkdtemp(prefix='verif_c19_')
    try:
        f = os.path.join(tmp, 'rep.json')
        rep.export_to_json(f, 'h')
        got = SimReport(file=f)
        same_frame(t, got.measurements, rep.measurements, 'measurements')
        same_frame(t, got.test_summary, rep.test_summary, 'summary')
    finally:
        shutil.rmtree(tmp)
