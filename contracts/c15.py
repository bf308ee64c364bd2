"""Measurement instruments."""

import z3

from pyvc.lib import as_z
from pyvc.ops import LOG10, ROUND

from .kit import *  # noqa: F403
from .kit import contract, draws_in, stub_samples, zeq

ASSUMPTIONS = ['log10 and rounding to a number of decimals are uninterpreted functions; infinities and nan are distinguished values of the real model',
               'index labels of a Series are not modelled (positions are)',
               'a sample of a random variable is one fresh value per position (contract of RandomVar.sample, property C16)']

INF, NAN = z3.Real('INF'), z3.Real('NAN')


def special(t):
    return z3.Or(t == INF, t == -INF, t == NAN)


def expected(y, prec, lims):
    z = y
    if prec is not None:
        p = prec if isinstance(prec, int) else prec.t
        digits = p - z3.ToInt(LOG10(z3.If(y >= 0, y, -y))) - 1
        z = z3.If(z3.Or(y == 0, special(y)), y, ROUND(y, digits))
    if lims is not None:
        lo, hi = lims
        if lo is not None:
            z = z3.If(z < rterm(lo), rterm(lo), z)
        if hi is not None:
            z = z3.If(z > rterm(hi), rterm(hi), z)
    return z


def limits(k):
    c = k.pick('none', 'both', 'lower', 'upper')
    if c == 'none':
        return None
    lo = k.num('lo') if c in ('both', 'lower') else None
    hi = k.num('hi') if c in ('both', 'upper') else None
    if c == 'both':
        k.assume(lo.t <= hi.t)
    return (lo, hi)


@contract('C15.measure', 'phys_envs.MeasInstrument.measure')
def measure(k):
    """every value: true value plus its own error draw, rounded to significant figures, then limited; type and order kept"""
    stub_samples(k)
    err = k.rv('err', label='error') if k.pick(True, False) else None
    prec = k.pick(None, k.int('prec', 1))
    lims = limits(k)
    inst = k.returns('constructed', k.new('phys_envs.MeasInstrument', 'x', prec, err, lims))
    kind = k.pick('array', 'series', 'float', 'int')
    n = k.int('n', 1)
    k.assume(z3.And(INF > 0, NAN != INF, NAN != -INF, NAN != 0))
    if kind in ('array', 'series'):
        src = k.arr('true', (n,), label='input')
        arg = src if kind == 'array' else SeriesRef((n.t, lambda i: src.at((i,))))
        i = k.index((n.t,))[0]
        x = rterm(src.at((i,)))
    else:
        arg = k.real('v') if kind == 'float' else k.int('v')
        x, i = rterm(arg), z3.IntVal(0)
    r = k.returns('returns', k.meth(inst, 'measure', arg))
    if kind == 'array':
        ok = isinstance(r, ArrRef) and len(r.shape) == 1
        k.ensure('array', dim_t(r.shape[0]) == n.t if ok else False, 'an array of as many values')
        y = r.at((i,)) if ok else None
    elif kind == 'series':
        ok = isinstance(r, SeriesRef)
        k.ensure('series', dim_t(r.st[0]) == n.t if ok else False, 'a series of as many values')
        y = r.st[1](i) if ok else None
    else:
        ok = is_num(r)
        k.ensure('number', ok, 'a number')
        y = r
    if not ok:
        raise Infeasible
    t = rterm(y)
    d = z3.RealVal(0)
    if err is not None:
        apps = draws_in(t, err)
        if not apps and lims is not None:
            # the value may be decided by a limit alone: then it must be that limit
            draws = [d0 for d0, o, m in k.run.extra.get('draws', ()) if o is err]
            k.ensure('error_sampled', len(draws) == 1, 'the error is sampled')
            d = rterm(draws[0].on(i) if kind in ('array', 'series') else draws[0].on())
            d = None
        else:
            ok = bool(apps) and len({str(e) for _, e in apps}) == 1
            k.ensure('one_error_draw', ok, f'draws used {[str(e) for _, e in apps]}')
            if not ok:
                raise Infeasible
            args, d = apps[0]
            if kind in ('array', 'series'):
                j = k.index((n.t,), 'j')[0]
                other = [z3.substitute(a, (i, j)) for a in args]
                same = z3.And(*[a == b for a, b in zip(args, other)]) if args else z3.BoolVal(True)
                k.ensure('own_error_draw', z3.Implies(i != j, z3.Not(same)), 'every value has its own error draw')
    if d is not None:
        k.ensure('value', t == expected(x + d, prec, lims), 'error, then rounding, then limits')
    if lims is not None:
        lo, hi = lims
        k.ensure('in_range', z3.And(t >= rterm(lo) if lo is not None else True, t <= rterm(hi) if hi is not None else True), 'within the range')


@contract('C15.ideal', 'phys_envs.MeasInstrument.measure')
def ideal(k):
    """an instrument without error, precision and range returns the true values unchanged"""
    stub_samples(k)
    inst = k.returns('constructed', k.new('phys_envs.MeasInstrument') if k.pick(True, False) else k.new('phys_envs.MeasInstrument', 'x'))
    n = k.int('n', 1)
    src = k.arr('true', (n,), label='input')
    r = k.returns('returns', k.meth(inst, 'measure', src))
    i = k.index((n.t,))
    k.ensure('unchanged', zeq(r.at(i), src.at(i)) if isinstance(r, ArrRef) and len(r.shape) == 1 else False)
    x = k.real('x')
    k.ensure('number', zeq(k.returns('returns', k.meth(inst, 'measure', x)), x))
