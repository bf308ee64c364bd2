from datetime import timedelta

import pandas as pd

from bounded import lib
from bounded.c19 import mk_report, same_frame
from bounded.gen import pick

lib.load()
from bounded.c01 import US, ALIAS  # noqa: E402
from gerabaldi.exceptions import UserConfigError  # noqa: E402

CLAUSES, clause = lib.registry()
US1 = timedelta(microseconds=1)


@clause(40, funcs='SimReport.convert_report_time, _convert_time')
def convert(rng, t):
    """every time becomes its number of the unit (hours when none is given), also when converted again; nothing else changes"""
    rep = mk_report(rng)
    m0, s0, names = rep.measurements.copy(deep=True), rep.test_summary.copy(deep=True), (rep.test_name, rep.test_description)
    for _ in range(int(rng.integers(1, 4))):
        unit = pick(rng, [*ALIAS, None])
        t.note(unit=unit, rows=len(m0))
        if unit is None and rng.random() < 0.5:
            rep.convert_report_time()
        else:
            rep.convert_report_time(unit)
        t.ok(names == (rep.test_name, rep.test_description), 'name and description')
        same_frame(t, rep.test_summary, s0, 'step summaries')
        if not len(m0):
            t.eq(len(rep.measurements), 0, 'no measurements')
            continue
        same_frame(t, rep.measurements.drop(columns='time'), m0.drop(columns='time'), 'everything but the times')
        want = [pd.Timedelta(x).to_pytimedelta() / US1 / US[ALIAS[unit or 'hours']] for x in m0['time']]
        got = list(rep.measurements['time'])
        t.ok(not any(isinstance(x, timedelta) for x in got), 'times are numbers', got=got[:3])
        # (converting numbers again goes through durations: microseconds)
        t.close([float(x) for x in got], want, 'times in the unit', rtol=1e-9, atol=2.0 / US[ALIAS[unit or 'hours']])


@clause(15, funcs='SimReport.convert_report_time')
def bad_unit(rng, t):
    """an unsupported unit is refused with UserConfigError and the measurements stay as they are"""
    rep = mk_report(rng)
    if not len(rep.measurements):
        raise lib.Skip
    m0, s0 = rep.measurements.copy(deep=True), rep.test_summary.copy(deep=True)
    bad = pick(rng, ['minutes', 'H', 'weeks', 'year', ''])
    t.note(unit=bad)
    t.raises(UserConfigError, lambda: rep.convert_report_time(bad), 'bad unit refused')
    same_frame(t, rep.measurements, m0, 'measurements')
    same_frame(t, rep.test_summary, s0, 'summary')
