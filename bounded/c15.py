from decimal import Decimal

import numpy as np
import pandas as pd

from bounded import lib
from bounded.gen import Enc, pick

lib.load()
from gerabaldi.models import MeasInstrument, Normal, Deterministic  # noqa: E402

CLAUSES, clause = lib.registry()


def sig(x, n):
    if x == 0 or not np.isfinite(x):
        return x
    return float(f'{x:.{n - 1}e}')


def vals(rng):
    n = int(rng.integers(1, 8))
    out = []
    for _ in range(n):
        k = int(rng.integers(9))
        if k == 0:
            out.append(0.0)
        elif k == 1:
            out.append(pick(rng, [np.inf, -np.inf, np.nan]))
        elif k < 4:
            out.append(float(rng.uniform(-100, 100)))
        elif k < 6:
            out.append(float(10 ** (rng.uniform(-12, 9) if k == 4 else rng.uniform(-40, 40))) * pick(rng, [1, -1]))
        elif k == 6:
            out.append(pick(rng, [1.0, 10.0, 1000.0, -1.0, 0.1, 99.96, 0.99999, -999.7]))
        else:
            out.append(float(rng.integers(-50, 50)))
    return out


def ok_round(got, x, n):
    """got is x rounded to n significant figures (ties either way)"""
    if x != x:
        return got != got
    if x == 0 or np.isinf(x):
        return got == x
    if abs(x) < 1e-290 or abs(x) > 1e290:
        return True
    d = Decimal(x)
    unit = Decimal(10) ** (d.adjusted() - n + 1)
    k = Decimal(float(got)) / unit
    near = k.to_integral_value()
    on_grid = abs(k - near) < Decimal('1e-3') if n < 13 else True
    return on_grid and abs(Decimal(float(got)) - d) <= unit * Decimal('0.5001') + abs(d) * Decimal('1e-14')


@clause(160, funcs='MeasInstrument.measure')
def measure(rng, t):
    """measure = clip(round_sig(true + error, precision), range) elementwise, each stage absent when not specified; type and
    order of the input kept; zero, inf and nan do not fail"""
    v = vals(rng)
    err = [float(rng.integers(1, 9)) * 0.125 + i * 2 for i in range(20)] if rng.random() < 0.5 else None
    prec = int(rng.integers(1, 7)) if rng.random() < 0.6 else None
    lims = None
    if rng.random() < 0.5:
        a, b = sorted([float(np.round(rng.uniform(-80, 80), 1)), float(np.round(rng.uniform(-80, 80), 1))])
        lims = pick(rng, [(a, b), (0, 12), (a, None), (None, b), (-3.14159, 3.14159), (0, b) if b > 0 else (a, 0)])
    kind = pick(rng, ['series', 'array', 'float', 'int', 'series_idx', 'int_array', 'int_series'])
    t.note(vals=v, error=err is not None, precision=prec, lims=lims, kind=kind)
    e = Enc(err) if err else None
    inst = MeasInstrument('x', prec, e, lims)
    if kind.startswith('int_'):
        v = [int(x) if abs(x) < 2**53 else 3 for x in v]
        arg = np.array(v) if kind == 'int_array' else pd.Series(v)
    elif kind in ('float', 'int'):
        v = v[:1]
        if kind == 'int':
            v = [int(v[0])] if abs(v[0]) < 2**53 else [3]
        arg = v[0]
    elif kind == 'array':
        arg = np.array(v)
    elif kind == 'series':
        arg = pd.Series(v)
    else:
        arg = pd.Series(v, index=[10 + 3 * i for i in range(len(v))])
    keep = arg.copy() if hasattr(arg, 'copy') else arg
    out = inst.measure(arg)
    if hasattr(arg, 'copy'):
        t.eq(np.asarray(arg), np.asarray(keep), 'input untouched')
    if kind.endswith('array'):
        t.ok(type(out) is np.ndarray, 'ndarray in, ndarray out', got=type(out))
    elif 'series' in kind:
        t.ok(isinstance(out, pd.Series) and list(out.index) == list(arg.index), 'Series in, Series out', got=out)
    else:
        t.ok(np.ndim(out) == 0 and isinstance(out, (int, float, np.floating, np.integer)), 'number in, number out', got=type(out))
    got = [float(x) for x in np.ravel(np.asarray(out, dtype=float))]
    t.eq(len(got), len(v), 'one result per value')
    # which error draw each value got: all draws distinct and each used once; order of draws not assumed
    used = []
    for g, x in zip(got, v):
        cands = err[: len(v)] if err else [0.0]
        match = []
        for c in cands:
            y = x + c
            zs = [y] if prec is None else None
            if zs is not None:
                z = y
                if lims and lims[0] is not None and z < lims[0]:
                    z = lims[0]
                if lims and lims[1] is not None and z > lims[1]:
                    z = lims[1]
                if g == z or (g != g and z != z):
                    match.append(c)
            else:
                r = sig(y, prec)
                inside = ok_round(g, y, prec)
                lo, hi = (lims or (None, None))
                clipped_lo = lo is not None and g == lo and (r <= lo + abs(lo) * 1e-12)
                clipped_hi = hi is not None and g == hi and (r >= hi - abs(hi) * 1e-12)
                out_of = (lo is not None and r < lo - abs(lo) * 1e-12 - 1e-300) or (hi is not None and r > hi + abs(hi) * 1e-12 + 1e-300)
                if (inside and not out_of) or clipped_lo or clipped_hi:
                    match.append(c)
        t.ok(match, 'result is the limited, rounded, error-affected true value', true=x, got=g)
        used.append(match)
        if lims:
            t.ok(g != g or ((lims[0] is None or g >= lims[0]) and (lims[1] is None or g <= lims[1])), 'reported value within the range', got=g, lims=lims)
    if err:
        t.ok(e.used == len(v), 'one error draw per value', draws=e.used)
        uniq = [m[0] for m in used if len(m) == 1]
        t.ok(len(set(uniq)) == len(uniq), 'each value has its own error draw', used=used)


@clause(40, funcs='MeasInstrument.measure')
def ideal(rng, t):
    """an ideal instrument returns the true values unchanged, for arrays, series and numbers"""
    v = vals(rng)
    t.note(vals=v)
    i = MeasInstrument()
    t.eq(i.measure(np.array(v)), np.array(v), 'array unchanged')
    s = pd.Series(v)
    t.eq(np.asarray(i.measure(s)), np.array(v), 'series unchanged')
    x = v[0]
    got = i.measure(x)
    t.ok(got == x or (got != got and x != x), 'float unchanged')
    t.eq(i.measure(7), 7, 'int unchanged')


@clause(30, funcs='MeasInstrument.measure')
def round_before_limit(rng, t):
    """rounding happens before limiting: the limit itself is reported exactly even if it has more significant figures"""
    hi = float(rng.uniform(1, 9)) + 0.001234567
    lo = -float(rng.uniform(1, 9)) - 0.007654321
    p = int(rng.integers(1, 3))
    t.note(lims=(lo, hi), precision=p)
    m = MeasInstrument(precision=p, meas_lims=(lo, hi))
    t.eq(m.measure(np.array([hi + 100, lo - 100, np.inf, -np.inf])), np.array([hi, lo, hi, lo]), 'limits reported exactly')
    m2 = MeasInstrument(precision=p, meas_lims=(lo, hi), error=Deterministic(200.0))
    t.eq(m2.measure(np.array([0.0])), np.array([hi]), 'error is added before limiting')
    t.close(MeasInstrument(precision=1, error=Deterministic(0.03)).measure(np.array([0.91])), [0.9], 'error is added before rounding')
    t.close(MeasInstrument(precision=2, error=Deterministic(0.3)).measure(np.array([100.0])), [100.0], 'error then rounding')


@clause(6, funcs='MeasInstrument.measure')
def many_values(rng, t):
    """each stage treats every value of a long array or series by itself: one draw per value, all values rounded and limited"""
    n = int(pick(rng, [257, 1025, 5003, 20011]))
    v = np.round(rng.uniform(-60, 60, n), 3)
    hi = 45.678
    series = rng.random() < 0.5
    t.note(n=n, series=series)
    arg = pd.Series(v) if series else v
    got = np.asarray(MeasInstrument(meas_lims=(-hi, hi)).measure(arg))
    t.eq(got, np.clip(v, -hi, hi), 'every value limited')
    got = np.asarray(MeasInstrument(precision=2).measure(arg))
    t.ok(all(ok_round(g, x, 2) for g, x in zip(got, v)), 'every value rounded')
    e = Enc([float(i) * 1e3 for i in range(n)])
    got = np.asarray(MeasInstrument(error=e).measure(arg))
    t.eq(e.used, n, 'one error draw per value')
    t.eq(sorted(np.round((got - v) / 1e3).astype(int).tolist()), list(range(n)), 'each value has its own error draw')
