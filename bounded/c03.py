import math
from datetime import timedelta
from fractions import Fraction

from bounded import lib
from bounded.gen import pick

lib.load()
from bounded.c01 import US, ALIAS  # noqa: E402
from gerabaldi.models import StrsSpec, MeasSpec, TestSpec  # noqa: E402
from gerabaldi.exceptions import UserConfigError  # noqa: E402

CLAUSES, clause = lib.registry()
US1 = timedelta(microseconds=1)


def mk_steps(rng, n, stress=None):
    out = []
    for i in range(n):
        s = rng.random() < 0.5 if stress is None else stress
        if s:
            h = int(rng.integers(1, 9))
            out.append(StrsSpec({'temp': 300 + i}, timedelta(hours=h) if rng.random() < 0.7 else timedelta(minutes=7 * h), f's{i}'))
        else:
            out.append(MeasSpec({'p': i + 1}, {'temp': 300}, f'm{i}'))
    return out


def same(t, got, want, msg):
    t.ok(len(got) == len(want) and all(a is b for a, b in zip(got, want)), msg, got=[s.name for s in got], want=[s.name for s in want])


@clause(40, funcs='TestSpec.append_steps, TestSpec.__init__')
def plain_append(rng, t):
    """without a loop duration exactly the given steps are added in order at the end; caller lists stay untouched"""
    base, add = mk_steps(rng, int(rng.integers(0, 4))), mk_steps(rng, int(rng.integers(0, 4)))
    base0, add0 = list(base), list(add)
    # Recorded defect (KNOWN below): a test shares the list it is constructed from, so hand each constructor its own copy
    spec = TestSpec(list(base)) if rng.random() < 0.8 or base else TestSpec()
    other = TestSpec(list(base))
    t.note(base=[s.name for s in base], add=[s.name for s in add])
    if len(add) == 1 and rng.random() < 0.5:
        spec.append_steps(add[0])
    else:
        spec.append_steps(add)
    same(t, spec.steps, base0 + add0, 'steps after append')
    same(t, add, add0, "caller's appended list untouched")
    same(t, other.steps, base0, 'another test built from the same list untouched')
    more = mk_steps(rng, 2)
    spec.append_steps(more)
    same(t, add, add0, "caller's appended list untouched by later appends")
    t2 = TestSpec()
    t2.append_steps(more[0])
    same(t, TestSpec().steps, [], 'a new test without steps is empty')


@clause(120, funcs='TestSpec.append_steps')
def looped_append(rng, t):
    """with a loop duration D: n = ceil(D / cycle) whole in-order copies are added; warning iff n*cycle is no multiple of D"""
    base = mk_steps(rng, int(rng.integers(0, 3)))
    kind = int(rng.integers(3))
    if kind == 0:
        add = mk_steps(rng, 1, True)
        arg = add[0]
    else:
        add = mk_steps(rng, int(rng.integers(1, 4)))
        if all(type(s) is MeasSpec for s in add):
            add.insert(int(rng.integers(len(add) + 1)), mk_steps(rng, 1, True)[0])
        if rng.random() < 0.3:
            add.append(add[0])
        arg = add
    cyc = sum((s.duration for s in add if type(s) is StrsSpec), timedelta())
    r = rng.random()
    if r < 0.45:
        D = cyc * int(rng.integers(1, 6))
    elif r < 0.6:
        D = cyc * int(rng.integers(1, 4)) + US1 * int(rng.integers(-1, 2))
    elif r < 0.8:
        D = cyc / int(rng.integers(1, 5))
    else:
        D = timedelta(minutes=int(rng.integers(1, 3000)))
    if D <= timedelta():
        raise lib.Skip
    spec = TestSpec(list(base))
    kw = {}
    loop = D
    if rng.random() < 0.5:
        u = pick(rng, ['d', 'h', None, 's', 'ms', 'us', 'hours', 'seconds'])
        x = int(rng.integers(1, 60)) * (US['hours'] // US[ALIAS[u]] if US[ALIAS[u]] < US['hours'] else 1)
        loop, D = x, US1 * (x * US[ALIAS[u]])
        kw = {'time_unit': u}
    t.note(base=[s.name for s in base], add=[(s.name, getattr(s, 'duration', None)) for s in add], loop=loop, D=D, kw=kw, single=kind == 0)
    Di, ci = D // US1, cyc // US1
    if math.ceil(Fraction(Di, ci)) > 4000:
        raise lib.Skip
    n = math.ceil(Fraction(Di, ci))
    warned = False
    base0, add0 = list(base), list(add)
    try:
        spec.append_steps(arg, loop, **kw)
    except UserWarning:
        warned = True
    same(t, spec.steps, base0 + add0 * n, f'exactly {n} whole cycles added')
    t.eq(warned, (n * ci) % Di != 0, 'warning raised exactly when added time is not a multiple of the loop duration')
    same(t, base, base0, "caller's list untouched")
    if kind:
        same(t, add, add0, "caller's cycle list untouched")


@clause(25, funcs='TestSpec.append_steps')
def refusals(rng, t):
    """zero loop duration, or no stress phase, is refused with UserConfigError and nothing is added"""
    base = mk_steps(rng, int(rng.integers(0, 3)))
    spec = TestSpec(list(base))
    add = mk_steps(rng, int(rng.integers(1, 3)), True)
    zero = pick(rng, [timedelta(), 0, 0.0])
    t.note(zero=zero)
    t.raises(UserConfigError, lambda: spec.append_steps(add, zero), 'zero loop duration refused')
    same(t, spec.steps, base, 'nothing added (zero)')
    meas = mk_steps(rng, int(rng.integers(1, 4)), False)
    arg = meas[0] if rng.random() < 0.4 else meas
    D = pick(rng, [timedelta(hours=3), 5, 2.5])
    t.note(meas=[m.name for m in meas], D=D)
    t.raises(UserConfigError, lambda: spec.append_steps(arg, D), 'measurement-only loop refused')
    same(t, spec.steps, base, 'nothing added (no stress)')
    t.raises(UserConfigError, lambda: spec.append_steps(add, 5, 'minutes'), 'bad unit refused')
    same(t, spec.steps, base, 'nothing added (bad unit)')


# Genuine defects that are recorded (KNOWN_FINDINGS.txt) instead of repaired: each clause is one fixed input
KNOWN, known = lib.registry()


@known(1, funcs='TestSpec.__init__')
def constructor_list_shared(rng, t):
    """fixed input: L=[m]; a=TestSpec(L); b=TestSpec(L); a.append_steps(m): L and b must still have one step"""
    m = MeasSpec({'p': 1}, {}, 'm')
    steps = [m]
    a, b = TestSpec(steps), TestSpec(steps)
    a.append_steps(m)
    t.ok(len(steps) == 1 and len(b.steps) == 1, "caller's list and other tests built from it untouched", list=len(steps), other=len(b.steps))
