"""HTOL tests."""

import z3

from .kit import *  # noqa: F403
from .kit import bind, contract, zeq

ASSUMPTIONS = [
    'assumed contract of a callee: TestSpec.append_steps (C03)',
    'datetime.timedelta is treated as an exact real number of seconds, supplies and temperatures as real numbers',
]

HTOL = 'ckb_test_specs.htol'


def stub_append(k):
    """contract of append_steps (C03)"""

    def append(ip, f, args, kwargs, kwmap):
        b = bind(f, args, kwargs, ('steps', 'loop_for_duration', 'time_unit'), method=True)
        steps, d = b['steps'], b['loop_for_duration']
        test = args[0]
        l = k.get(test, 'steps')
        if not isinstance(l, ListRef):
            raise Unsupported('steps of the test')
        items = list_items(steps) if isinstance(steps, ListRef) else [steps]
        if items is None:
            raise Unsupported('unknown steps')
        if d is None:
            for x in items:
                list_append(l, x)
            return None
        if isinstance(d, TD):
            dur = rterm(d.s)
        elif b['time_unit'] in (None, 'h', 'hours'):
            dur = rterm(d) * 3600
        else:
            raise Unsupported('unit')
        cycle = sum((rterm(k.get(x, 'duration').s) for x in items if x.cls.name == 'StrsSpec'), z3.RealVal(0))
        if truth(wrap(z3.Or(dur == 0, cycle == 0))):
            raise Unsupported('append_steps outside its precondition')
        n = k.int('copies', 0)
        k.assume(z3.And(rterm(n) * cycle >= dur, z3.Or(n.t == 0, (rterm(n) - 1) * cycle < dur)))
        l.put((*l.st, ('copies', n, tuple(items), cycle)))
        if not truth(wrap(z3.IsInt(rterm(n) * cycle / dur))):
            raise PyExc(UserWarning)
        return None

    k.ip.stubs['test_specs.TestSpec.append_steps'] = append


@contract('C20.htol', HTOL)
def htol(k):
    """nominal measurement, exactly the requested stress time at stress conditions (measured at every interval), nominal measurement"""
    stub_append(k)
    kind = k.pick('int', 'real')
    num = (lambda n: k.int(n, 1)) if kind == 'int' else k.num
    what = k.map(k.names('what'), lambda p: k.int('count', 1))
    vdd, mult, temp = k.num('vdd'), k.num('mult'), k.num('temp')
    iv, dur = num('interval'), num('duration')
    k.assume(z3.And(iv.t > 0, dur.t > 0))
    chips, lots = k.int('chips', 1), k.int('lots', 1)
    r = k.call(HTOL, what, vdd_nom=vdd, vdd_strs_mult=mult, strs_meas_intrvl=iv, duration_override=dur, num_chps_override=chips,
               num_lots_override=lots, temp_override=temp)
    ivr, durr = rterm(iv), rterm(dur)
    single = truth(wrap(ivr >= durr))
    q = z3.Int(f'intervals!{k.run.fresh_id()}')
    fits = z3.Int(f'whole!{k.run.fresh_id()}')
    if not single:
        if kind == 'int':
            divides = truth(wrap(dur.t % iv.t == 0))
            if divides:
                k.assume(z3.And(dur.t == q * iv.t, durr == z3.ToReal(q) * ivr, q >= 2))
        else:
            divides = truth(wrap(durr == z3.ToReal(fits) * ivr))
            if divides:
                k.assume(q == fits)
            else:
                k.assume(z3.Not(z3.IsInt(durr / ivr)))
        if not divides:
            k.raises('refused', r, 'UserConfigError')
            return
    test = k.returns('returns', r)
    ok = isinstance(test, ObjRef) and test.cls.name == 'TestSpec'
    k.ensure('test', ok, f'{test!r}')
    if not ok:
        raise Infeasible
    k.ensure('chips', zeq(k.get(test, 'num_chps'), chips), 'chips as requested')
    k.ensure('lots', zeq(k.get(test, 'num_lots'), lots), 'lots as requested')
    segs = k.get(test, 'steps').st
    steps = []
    for s in segs:
        if s[0] == 'items':
            steps.extend((x, None) for x in s[1])
        elif s[0] == 'copies':
            steps.append(s)
        else:
            raise Unsupported('steps of the test')
    shape = [('copies' if s[0] == 'copies' else s[0].cls.name) for s in steps]
    want = ['MeasSpec', 'StrsSpec', 'MeasSpec'] if single else ['MeasSpec', 'MeasSpec', 'copies', 'MeasSpec']
    k.ensure('shape', shape == want, f'{shape}')
    if shape != want:
        raise Infeasible

    def conds(s, name, stress):
        c = k.get(s, 'conditions')
        t, v = map_get(c, 'temp'), map_get(c, 'vdd')
        ok = t is not ABSENT and v is not ABSENT
        k.ensure(f'{name}.temp', rterm(t) == (rterm(temp) if stress else 25) + z3.RealVal('273.15') if ok else False, f'temperature {t!r}')
        k.ensure(f'{name}.vdd', rterm(v) == (rterm(vdd) * rterm(mult) if stress else rterm(vdd)) if ok else False, f'supply {v!r}')
        x = sname('other')
        k.assume(z3.And(x.t != code('temp'), x.t != code('vdd')))
        k.ensure(f'{name}.only', map_get(c, x) is ABSENT, 'no other condition')

    def meas(s, name, stress):
        ok = s.cls.name == 'MeasSpec'
        k.ensure(f'{name}.kind', ok)
        if not ok:
            raise Infeasible
        m = k.get(s, 'measurements')
        p = sname('what')
        got, want = map_get(m, p), map_get(what, p)
        k.ensure(f'{name}.samples', got is want if got is ABSENT or want is ABSENT else zeq(got, want), 'all requested samples')
        conds(s, name, stress)

    def stress(s, name, hours):
        ok = s.cls.name == 'StrsSpec'
        k.ensure(f'{name}.kind', ok)
        if not ok:
            raise Infeasible
        d = k.get(s, 'duration')
        k.ensure(f'{name}.duration', rterm(d.s) == hours * 3600 if isinstance(d, TD) else False, f'lasts {d!r}')
        conds(s, name, True)

    meas(steps[0][0], 'first', False)
    meas(steps[-1][0], 'last', False)
    if single:
        stress(steps[1][0], 'stress', durr)
        return
    meas(steps[1][0], 'before', True)
    _, n, items, cycle = steps[2]
    k.ensure('alternates', len(items) == 2, f'{items}')
    if len(items) != 2:
        raise Infeasible
    stress(items[0], 'stress', ivr)
    meas(items[1], 'after', True)
    k.ensure('total', z3.ToReal(n.t) * cycle == durr * 3600, 'the stress time adds up to the duration')


@contract('C20.default', HTOL)
def default(k):
    """the defaults: 1000 h, no measurements under stress, 1.2 times a nominal supply of 1 V at 125 C, 77 chips of 3 lots"""
    stub_append(k)
    what = k.map(k.names('what'), lambda p: k.int('count', 1))
    test = k.returns('returns', k.call(HTOL, what))
    k.ensure('chips', zeq(k.get(test, 'num_chps'), 77))
    k.ensure('lots', zeq(k.get(test, 'num_lots'), 3))
    items = list_items(k.get(test, 'steps'))
    ok = items is not None and [s.cls.name for s in items] == ['MeasSpec', 'StrsSpec', 'MeasSpec']
    k.ensure('shape', ok)
    if not ok:
        raise Infeasible
    c = k.get(items[1], 'conditions')
    k.ensure('stress', z3.And(rterm(map_get(c, 'temp')) == z3.RealVal('398.15'), rterm(map_get(c, 'vdd')) == z3.RealVal('1.2'),
                              rterm(k.get(items[1], 'duration').s) == 3600000), '1000 h at 125 C and 1.2 times the supply')
