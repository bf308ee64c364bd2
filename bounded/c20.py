from datetime import timedelta

from bounded import lib
from bounded.gen import pick

lib.load()
from gerabaldi.cookbook import htol  # noqa: E402
from gerabaldi.models import StrsSpec, MeasSpec, TestSpec  # noqa: E402
from gerabaldi.exceptions import UserConfigError  # noqa: E402

CLAUSES, clause = lib.registry()
K = 273.15


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(b))


@clause(120, funcs='htol, TestSpec.append_steps')
def structure(rng, t):
    """room measurement, stress totalling exactly the duration at stress conditions (with stress measurements before and
    after every interval when the interval is shorter), room measurement; non-dividing intervals refused"""
    kw = {}
    meas = {n: int(rng.integers(1, 9)) for n in pick(rng, ['vth', 'gm', 'temp'], int(rng.integers(1, 4)))}
    dur = pick(rng, [1000, 500, 24, 96, 7, 1, 1000, int(rng.integers(2, 1200)), 100.5])
    if dur != 1000 or rng.random() < 0.5:
        kw['duration_override'] = dur
    r = rng.random()
    iv = 1000
    if r < 0.5:
        k = int(rng.integers(1, 13))
        iv = dur // k if isinstance(dur, int) and dur % k == 0 else pick(rng, [dur, 1, 10])
    elif r < 0.8:
        iv = int(rng.integers(1, 1200))
    elif r < 0.9:
        iv = pick(rng, [dur + 1, dur * 2, 0.5, 2.5])
    if iv != 1000:
        kw['strs_meas_intrvl'] = iv
    vdd = float(rng.uniform(0.5, 3)) if rng.random() < 0.6 else 1.0
    if vdd != 1.0:
        kw['vdd_nom'] = vdd
    mult = float(rng.uniform(1, 2)) if rng.random() < 0.6 else 1.2
    if mult != 1.2:
        kw['vdd_strs_mult'] = mult
    chps = int(rng.integers(1, 99)) if rng.random() < 0.6 else 77
    if chps != 77:
        kw['num_chps_override'] = chps
    lots = int(rng.integers(1, 9)) if rng.random() < 0.6 else 3
    if lots != 3:
        kw['num_lots_override'] = lots
    temp = int(rng.integers(30, 200)) if rng.random() < 0.6 else 125
    if temp != 125:
        kw['temp_override'] = temp
    t.note(meas=meas, **{k: v for k, v in kw.items()})
    m0 = dict(meas)
    if iv < dur and dur % iv != 0:
        t.raises(UserConfigError, lambda: htol(meas, **kw), 'interval that does not divide the duration')
        return
    if iv < dur and dur / iv > 300:
        raise lib.Skip
    spec = htol(meas, **kw)
    t.ok(isinstance(spec, TestSpec), 'returns a test specification')
    t.eq((spec.num_chps, spec.num_lots), (chps, lots), 'chips and lots')
    st = spec.steps

    def is_meas(s, stress):
        c = s.conditions
        return (type(s) is MeasSpec and dict(s.measurements) == m0 and set(c) == {'temp', 'vdd'}
                and close(c['temp'], (temp if stress else 25) + K) and close(c['vdd'], vdd * mult if stress else vdd))

    def is_strs(s, d):
        c = s.conditions
        return type(s) is StrsSpec and s.duration == timedelta(hours=d) and set(c) == {'temp', 'vdd'} and close(c['temp'], temp + K) and close(c['vdd'], vdd * mult)

    t.ok(len(st) >= 3 and is_meas(st[0], False), 'starts with a nominal measurement', got=vars(st[0]))
    t.ok(is_meas(st[-1], False), 'ends with a nominal measurement', got=vars(st[-1]))
    total = sum((s.duration for s in st if type(s) is StrsSpec), timedelta())
    t.ok(total == timedelta(hours=dur) if float(dur).is_integer() and float(iv).is_integer() else abs(total - timedelta(hours=dur)) < timedelta(seconds=1), 'total stress time is the requested duration', got=total)
    mid = st[1:-1]
    if iv >= dur:
        t.ok(len(mid) == 1 and is_strs(mid[0], dur), 'one stress phase of the full duration', got=[vars(s) for s in mid])
    else:
        n = round(dur / iv)
        t.eq(len(mid), 2 * n + 1, 'stress measurement, then one per interval')
        t.ok(is_meas(mid[0], True), 'stress-condition measurement before the stress', got=vars(mid[0]))
        for i in range(n):
            t.ok(is_strs(mid[1 + 2 * i], iv), f'stress interval {i}', got=vars(mid[1 + 2 * i]))
            t.ok(is_meas(mid[2 + 2 * i], True), f'measurement after interval {i}', got=vars(mid[2 + 2 * i]))
    t.ok(meas == m0, 'requested samples untouched')


@clause(15, funcs='htol')
def independent_calls(rng, t):
    """building one test does not affect previously built ones"""
    a = htol({'p': 1}, strs_meas_intrvl=100)
    n = len(a.steps)
    d = [getattr(s, 'duration', None) for s in a.steps]
    b = htol({'p': 2}, strs_meas_intrvl=pick(rng, [50, 100, 250]), duration_override=pick(rng, [500, 1000]))
    t.note(x=len(b.steps))
    t.ok(len(a.steps) == n and [getattr(s, 'duration', None) for s in a.steps] == d, 'earlier test unaffected')
