from datetime import timedelta

import numpy as np
import pandas as pd

from bounded import lib
from bounded.gen import pick

lib.load()
from gerabaldi.models import StrsSpec, SimReport  # noqa: E402
from gerabaldi.exceptions import UserConfigError  # noqa: E402

CLAUSES, clause = lib.registry()

US = {'days': 86400 * 10**6, 'hours': 3600 * 10**6, 'seconds': 10**6, 'milliseconds': 1000, 'microseconds': 1}
ALIAS = {'d': 'days', 'h': 'hours', None: 'hours', 's': 'seconds', 'ms': 'milliseconds', 'us': 'microseconds'}
ALIAS.update({k: k for k in US})
UNITS = list(ALIAS)
US1 = timedelta(microseconds=1)


def num(rng):
    k = int(rng.integers(5))
    if k == 0:
        return int(rng.integers(1, 2000))
    if k == 1:
        return float(rng.integers(1, 4000)) / 8
    if k == 2:
        return float(rng.uniform(0.001, 50))
    if k == 3:
        return np.float64(rng.uniform(0.5, 1000))
    return float(10 ** rng.uniform(-2, 3))


@clause(60, funcs='StrsSpec.__init__, _convert_time')
def stress_duration(rng, t):
    """StrsSpec(conds, x, unit).duration == x * one unit, to the microsecond; alias and full name agree; None = hours"""
    u = UNITS[int(rng.integers(len(UNITS)))]
    x = num(rng)
    if u in ('us', 'microseconds'):
        x = float(np.ceil(x))
    t.note(x=x, unit=u)
    want = float(x) * US[ALIAS[u]]
    if want < 1:
        raise lib.Skip
    got = StrsSpec({'temp': 300}, x, time_unit=u).duration
    t.ok(isinstance(got, timedelta), 'duration is a timedelta', got=got)
    t.ok(abs(got / US1 - want) <= 1 + 1e-12 * want, 'duration is exactly x units', got=got, want_us=want)
    full = StrsSpec({}, x, 'n', ALIAS[u]).duration
    t.eq(got, full, 'alias behaves as full unit name')


@clause(20, funcs='StrsSpec.__init__')
def stress_duration_timedelta(rng, t):
    """a timedelta duration is kept unchanged, whatever the unit argument; zero durations are refused"""
    d = timedelta(days=int(rng.integers(0, 20)), seconds=int(rng.integers(0, 9999)), microseconds=int(rng.integers(0, 999)))
    u = UNITS[int(rng.integers(len(UNITS)))]
    t.note(d=d, unit=u)
    if d:
        t.eq(StrsSpec({}, d, 'n', u).duration, d, 'timedelta duration kept')
    for z in (timedelta(), 0, 0.0):
        t.raises(UserConfigError, lambda z=z: StrsSpec({}, z, 'n', u), f'zero duration {z!r} refused')


@clause(20, funcs='StrsSpec.__init__, _convert_time')
def bad_units(rng, t):
    """an unsupported unit is refused with UserConfigError wherever a unit is converted with"""
    bad = pick(rng, ['minutes', 'm', 'weeks', 'H', 'Hours', 'hour', '', 'sec', 'ns', 'year', 3, 'hours '])
    t.note(unit=bad)
    t.raises(UserConfigError, lambda: StrsSpec({}, num(rng), 'n', bad), 'bad unit refused by StrsSpec')
    conv = lib.private('gerabaldi.helpers', '_convert_time')
    t.raises(UserConfigError, lambda: conv(1.5, bad), 'bad unit refused (to duration)')
    t.raises(UserConfigError, lambda: conv(timedelta(hours=1), bad), 'bad unit refused (to number)')


@clause(80, funcs='_convert_time')
def convert_both_ways(rng, t):
    """_convert_time(d, u) == d / one(u) exactly (float quotient) and _convert_time(_convert_time(d,u),u) == d to 1 us"""
    conv = lib.private('gerabaldi.helpers', '_convert_time')
    u = UNITS[int(rng.integers(len(UNITS)))]
    d = timedelta(days=int(rng.integers(0, 400)), seconds=int(rng.integers(0, 86400)), microseconds=int(rng.integers(0, 10**6)))
    if rng.random() < 0.3:
        d = timedelta(microseconds=int(rng.integers(0, 5000)))
    if rng.random() < 0.1:
        d = -d
    t.note(d=d, unit=u)
    for dd in (d, pd.Timedelta(d)):
        got = conv(dd, u)
        want = (d // US1) / US[ALIAS[u]]
        t.ok(isinstance(got, (int, float)) and abs(got - want) <= 1e-12 * abs(want), 'duration / one unit', got=got, want=want)
        back = conv(float(got), u)
        t.ok(abs(back - d) <= US1, 'round trip duration -> number -> duration', back=back)
    far = timedelta(days=int(rng.integers(400, 10**8)), seconds=int(rng.integers(0, 86400)))
    got, want = conv(far, u), (far // US1) / US[ALIAS[u]]
    t.ok(abs(got - want) <= 1e-12 * want, 'a very long duration / one unit', got=got, want=want, duration=far)
    t.eq(conv(d, u), conv(d, ALIAS[u]), 'alias behaves as full unit name')
    x = num(rng)
    t.note(x=x)
    td = conv(x, u)
    t.ok(abs(td / US1 - float(x) * US[ALIAS[u]]) <= 1 + 1e-12 * float(x) * US[ALIAS[u]], 'number -> duration is x units', got=td)
    t.ok(abs(conv(td, u) - float(x)) * US[ALIAS[u]] <= 1.01 + 1e-11 * float(x) * US[ALIAS[u]], 'number -> duration -> number')


@clause(15, funcs='SimReport.convert_report_time, _convert_time')
def report_time_unit(rng, t):
    """converting a report's time column divides every time by exactly one of the unit"""
    u = UNITS[int(rng.integers(len(UNITS)))]
    ds = [timedelta(seconds=int(rng.integers(0, 10**6)), microseconds=int(rng.integers(0, 10**6))) for _ in range(4)]
    t.note(ds=ds, unit=u)
    r = SimReport(name='r')
    r.measurements = pd.DataFrame({'time': ds, 'measured': [1.0] * 4})
    r.convert_report_time(u)
    t.close(list(r.measurements['time']), [(d // US1) / US[ALIAS[u]] for d in ds], 'report times', rtol=1e-12, atol=0)
