"""Time conversion."""

import z3

from .kit import *  # noqa: F403
from .kit import contract, zeq

ASSUMPTIONS = ['datetime.timedelta is treated as an exact real number of seconds (its rounding to microseconds is dropped)']

SEC = {'days': 86400, 'hours': 3600, 'seconds': 1, 'milliseconds': Fraction(1, 1000), 'microseconds': Fraction(1, 10**6)}
ALIAS = {'d': 'days', 'h': 'hours', None: 'hours', 's': 'seconds', 'ms': 'milliseconds', 'us': 'microseconds', **{u: u for u in SEC}}


def factor(u):
    return z3.RealVal(str(Fraction(SEC[ALIAS[u]])))


def bad_unit(k):
    u = sname('unit')
    k.assume(z3.And(*[u.t != code(x) for x in ALIAS if x is not None]))
    return u


def td(k, name='dur', pandas=False):
    return TD(k.real(name), pandas)


CONV = 'helpers._convert_time'


@contract('C01.convert', CONV)
def convert(k):
    """duration -> number divides by the unit; number -> duration multiplies; the directions are inverse; aliases agree"""
    u = k.pick(*ALIAS)
    if k.pick('number', 'duration') == 'duration':
        d = td(k, pandas=k.pick(False, True))
        n = k.returns('to_number', k.call(CONV, d, u))
        k.ensure('to_number.exact', rterm(n) * factor(u) == rterm(d.s) if is_num(n) else False, f'number of {u}')
        if is_num(n):
            back = k.returns('back', k.call(CONV, n, u))
            k.ensure('to_number.inverse', rterm(back.s) == rterm(d.s) if isinstance(back, TD) else False)
    else:
        x = k.num('x')
        d = k.returns('to_duration', k.call(CONV, x, u))
        k.ensure('to_duration.exact', rterm(d.s) == rterm(x) * factor(u) if isinstance(d, TD) else False, f'{u}')
        if isinstance(d, TD):
            back = k.returns('back', k.call(CONV, d, u))
            k.ensure('to_duration.inverse', rterm(back) == rterm(x) if is_num(back) else False)


@contract('C01.bad_unit', CONV)
def bad(k):
    """unsupported units are refused with a configuration error"""
    u = bad_unit(k)
    x = k.pick(k.num('x'), td(k))
    k.raises('refused', k.call(CONV, x, u), 'UserConfigError')


@contract('C01.stress', 'test_specs.StrsSpec.__init__')
def stress(k):
    """a stress step lasts exactly the given number of its unit, or the given duration; zero is refused"""
    conds = k.map(k.names('conds'), lambda n: k.real('c'))
    case = k.pick('number', 'duration', 'zero', 'zero_duration', 'bad')
    u = k.pick(*ALIAS)
    if case == 'number':
        x = k.num('x')
        k.assume(x.t != 0)
        s = k.returns('accepted', k.new('test_specs.StrsSpec', conds, x, 'n', u) if u is not None or k.pick(True, False) else
                      k.new('test_specs.StrsSpec', conds, x))
        d = k.get(s, 'duration')
        k.ensure('exact', rterm(d.s) == rterm(x) * factor(u) if isinstance(d, TD) else False, f'{u}')
    elif case == 'duration':
        x = td(k)
        k.assume(rterm(x.s) != 0)
        s = k.returns('accepted', k.new('test_specs.StrsSpec', conds, x, 'n', u))
        d = k.get(s, 'duration')
        k.ensure('kept', rterm(d.s) == rterm(x.s) if isinstance(d, TD) else False)
    elif case == 'bad':
        k.raises('unit_refused', k.new('test_specs.StrsSpec', conds, k.num('x'), 'n', bad_unit(k)), 'UserConfigError')
    else:
        x = k.pick(0, Fraction(0)) if case == 'zero' else TD(Fraction(0))
        k.raises('zero_refused', k.new('test_specs.StrsSpec', conds, x, 'n', u), 'UserConfigError')
