"""Self-test of the obligation generator (setup_cmd).

1. The interpreter against CPython: snippets over the language and library subset are run by both on concrete inputs.
2. The rules for unknown inputs: obligations that hold must be discharged, obligations that do not hold must be refuted.

Something the interpreter does not support is reported but is no failure (such code is undecided in a check, never accepted).
"""

from __future__ import annotations

import ast
import os
import random
import sys
import types
from datetime import timedelta
from fractions import Fraction

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)

# every function gets: a, b, c small integers, x, y floats, l a list of integers, d a dictionary from names to integers, s a string
SNIPPETS = r'''
def arith(a, b, c, x, y, l, d, s): return a + b * c - (a - b) ** 2, x * y - a, a // (abs(b) + 1), a % (abs(c) + 1), -a // (abs(b) + 1), -a % (abs(b) + 1), x / (abs(y) + 1)
def compare(a, b, c, x, y, l, d, s): return a < b, a <= b < c, a == b, a != c, not a, a and b, a or b, a if b else c, x > y, a is None, s == 'ab', a in l
def loops(a, b, c, x, y, l, d, s):
    t = 0
    for i, v in enumerate(l):
        if v == a: continue
        if v > 6: break
        t += v * i
    else:
        t += 1000
    return t
def whiles(a, b, c, x, y, l, d, s):
    n, t = abs(a), []
    while n > 0:
        t.append(n)
        n -= 2
        if n == 3: break
    else:
        t.append('end')
    return t, n
def comps(a, b, c, x, y, l, d, s): return [v * a for v in l if v > b], {k: v + 1 for k, v in d.items()}, [(i, j) for i in l for j in range(2)], sum(l), max(l), min(l, key=lambda v: -v), len(l)
def slices(a, b, c, x, y, l, d, s): return l[0], l[-1], l[1:], l[:-1], l[::2], s[:2], (a, b, c)[1:], l[1:2] + l[:1]
def unpack(a, b, c, x, y, l, d, s):
    p, (q, r) = a, (b, c)
    p, q = q, p
    first, *rest = l
    return p, q, r, first, rest
def dicts(a, b, c, x, y, l, d, s):
    e = dict(d)
    e['new'] = a
    e.update({'p': b})
    e.setdefault('q', 5)
    e.setdefault('p', 99)
    f = {**d, 'p': 1}
    return e, d, f, e.get('zz'), e.get('zz', 3), 'new' in e, 'new' in d, list(e.keys()), list(e.values()), e.pop('new'), len(e), [k for k in sorted(d)]
def lists(a, b, c, x, y, l, d, s):
    m = l
    n = list(l)
    o = l.copy()
    m.append(a)
    n.extend([b, c])
    n.insert(0, 7)
    o[0] = -1
    return l, m, n, o, n.pop(), n.index(7), n.count(b), l == m, l + [1], [0] * 3
def tries(a, b, c, x, y, l, d, s):
    log = []
    for v in l:
        try:
            if v % 3 == 0: raise ValueError('three')
            if v % 3 == 1: d['missing']
            log.append('fine')
        except ValueError as e:
            log.append(v)
        except (KeyError, TypeError):
            log.append('key')
        else:
            log.append('else')
        finally:
            log.append('f')
    return log
def raises(a, b, c, x, y, l, d, s):
    try:
        return d['absent']
    except KeyError as e:
        raise ValueError('again') from e
def finals(a, b, c, x, y, l, d, s):
    def g(v):
        try:
            if v > 0: return 'early'
            l.append(v)
        finally:
            l.append('last')
        return 'late'
    return g(a), g(b), l
def closures(a, b, c, x, y, l, d, s):
    n = a
    def add(v, w=b, *rest, k=c, **kw):
        return v + w + k + n + sum(rest) + sum(kw.values())
    n = n + 10
    return add(1), add(1, 2), add(1, 2, 3, 4), add(1, k=0), add(1, z=5, q=6), (lambda v: v * n)(3), add(*[1, 2], **{'k': 4})
def nonlocals(a, b, c, x, y, l, d, s):
    n = 0
    def bump(v):
        nonlocal n
        n += v
        return n
    return [bump(v) for v in l], n
def classes(a, b, c, x, y, l, d, s):
    class Base:
        kind = 'base'
        def __init__(self, v): self.v = v
        def get(self): return self.v
        def __eq__(self, o): return self.v == o.v
    class Sub(Base):
        kind = 'sub'
        def __init__(self, v):
            super().__init__(v + 1)
            self.w = v
        def get(self): return super().get() * 2
        @property
        def both(self): return self.v, self.w
        @staticmethod
        def st(q): return q + 1
    o, p = Sub(a), Sub(b)
    o.extra = c
    setattr(p, 'dyn', 4)
    return o.get(), o.both, o.kind, Base.kind, Sub.st(a), isinstance(o, Base), type(o) is Sub, type(o) == Base, hasattr(o, 'dyn'), getattr(p, 'dyn'), getattr(o, 'no', 'dflt'), o == p, o.extra
def iters(a, b, c, x, y, l, d, s): return list(zip(l, range(len(l)))), list(reversed(l)), any(v > 3 for v in l), all(v > 3 for v in l), list(map(lambda v: v + 1, l)), list(range(a % 5, 9, 3))
def strings(a, b, c, x, y, l, d, s): return s + 'z', s * 2, f'{s}-{a}', s.upper(), s.rpartition('/')[0], s.startswith('a'), '_'.join(['p', s]), s.replace('a', 'o'), 'b' in s, s.split('/'), str(a), len(s)
def sets(a, b, c, x, y, l, d, s):
    t = set(d)
    t.add('p')
    return 'p' in t, 'zz' in t, len({'q', 'q', 'r'}), sorted(t)
def numbers(a, b, c, x, y, l, d, s): return abs(a), int(x), float(a), bool(a), max(a, b, c), min(x, y), isinstance(a, int), isinstance(x, float), isinstance(True, int), type(a) is int
def times(a, b, c, x, y, l, d, s):
    p, q = timedelta(hours=a, seconds=b), timedelta(days=1)
    return p.total_seconds(), (p + q).total_seconds(), (q - p) < q, q / timedelta(hours=2), (2 * q).total_seconds(), p == timedelta(hours=a, seconds=b), bool(timedelta()), (q % timedelta(hours=abs(a) + 1)).total_seconds(), p.days, p.seconds, timedelta(seconds=a, milliseconds=b).microseconds, timedelta(seconds=-5, milliseconds=-b).seconds
def withs(a, b, c, x, y, l, d, s):
    global_name = [v for v in (a, b)]
    del global_name[0]
    assert global_name == [b]
    return global_name
def aliasing(a, b, c, x, y, l, d, s):
    e = {'l': l, 'd': d}
    f = dict(e)
    f['l'].append(a)
    f['d'] = {}
    return e, f
def arrays(a, b, c, x, y, l, d, s):
    m = np.array([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]])
    n = m.copy()
    m[0, 1] = a
    return m, n, m + n, m * 2 - 1, n[1], n[:, 1:], m.shape, m.T, np.zeros((2, 2)), np.ones(3) * x, np.full((2, 1), b), m.reshape((3, 2)), np.abs(m - 3), m > n
def arrays2(a, b, c, x, y, l, d, s):
    m = np.arange(6).reshape((1, 2, 3))
    return np.tile(np.arange(2), 3), np.repeat(np.arange(2), 3), m + np.array([[[10], [20]]]), np.where(m > 2, m, -1), m.size, m.ndim, np.array(l), np.all(m >= 0), m[0, 1, 2], np.broadcast_to(np.array([1.0]), (3,)), np.minimum(m, 2), np.clip(m, 1, 3)
def arrays3(a, b, c, x, y, l, d, s):
    m = np.zeros((2, 2))
    v = m[0]
    m[0][0] = a
    m[1, :] = b
    m += 1
    return m, v
def chained(a, b, c, x, y, l, d, s):
    t = a
    t += b
    t *= 2
    u = v = [t]
    v.append(c)
    return u, v, t if t > 0 else None
def walrus(a, b, c, x, y, l, d, s):
    if (n := len(l)) > 2:
        return n
    return -n
def firsts(a, b, c, x, y, l, d, s): return next((v for v in l if v > 3), None), next((v for v in l if v > 99), a), next(k for k in d if d[k] > 99)
def fromkeys(a, b, c, x, y, l, d, s): return dict.fromkeys(d, a), dict.fromkeys(l), dict.fromkeys(['p', 'q'], 1)
def ndindex(a, b, c, x, y, l, d, s): return [i for i in np.ndindex(2, abs(a) % 3)], [(i, j) for i, j in np.ndindex((2, 2))]
def repeated(a, b, c, x, y, l, d, s): return np.array([a] * 3), np.array([x] * len(l)).sum()
def dtypes(a, b, c, x, y, l, d, s): return np.full(3, x, dtype=int), np.zeros(2, dtype=int), np.array([x, y]).astype(int), np.array([a, b], dtype=float), np.full(2, y, int), np.full_like(np.array([1, 2]), x), np.zeros_like(np.array([a]))
def inplace(a, b, c, x, y, l, d, s):
    v = np.zeros_like(np.array([a, b]))
    w = np.array([x, y])
    w += a
    w[0] = a
    v[1] = 2
    v += b
    if c > 0:
        v += x
    return v, w
def truncs(a, b, c, x, y, l, d, s):
    v = np.array([1, 2, 3])
    v[0] = x * 3
    v[1] = -7.9
    return v, np.resize(np.array([a, b]), 3)
def attrs(a, b, c, x, y, l, d, s):
    class K:
        def __init__(self): self.p = a
    k = K()
    return k.__dict__.setdefault('p', b), k.__dict__.setdefault('q', c), k.q, k.__dict__.get('r'), 'q' in k.__dict__, k.__dict__['p']
def backwards(a, b, c, x, y, l, d, s): return [v for v in reversed(l)], [(i, v) for i, v in enumerate(reversed(l))], [i for i in reversed(range(abs(a)))]
def gens(a, b, c, x, y, l, d, s):
    def g():
        for v in l:
            yield v * 2
    return list(g()), sum(v for v in g() if v > 4)
def matches(a, b, c, x, y, l, d, s):
    match a % 3:
        case 0: return 'zero'
        case 1 | 2: return 'some'
        case _: return 'none'
def matches2(a, b, c, x, y, l, d, s):
    match (a % 2, s):
        case (0, str() as q): return 'even', q
        case (1, q) if b > 0: return 'odd', q
        case other: return other
def iterators(a, b, c, x, y, l, d, s):
    z = zip(l, l)
    e = enumerate(l)
    f = filter(lambda v: v > 2, l)
    m = map(lambda v: v * 2, l)
    g = (v for v in l)
    i = iter(l)
    r = [next(i, None), next(i, 7), list(i), list(i)]
    return list(z), list(z), list(e), list(e), list(f), list(f), list(m), list(m), list(g), r, next(iter(d.values()), 3)
def folds(a, b, c, x, y, l, d, s):
    import functools
    import itertools
    ch = itertools.chain(l, [a, b], d.values())
    return functools.reduce(lambda p, q: p * 2 - q, l, a), list(ch), list(ch), functools.reduce(np.add, l)
def products(a, b, c, x, y, l, d, s):
    r = np.zeros((2, 3))
    for idx in np.ndindex(2, 3):
        r[idx] = idx[0] * 10 + idx[1]
    return r, np.arange(7) % 3, np.arange(7) // 3, (np.arange(7) - 3) % -2, (np.arange(7) - 3) // -2, np.arange(3) // 0
'''


class Odd(Exception):
    pass


def native(v):
    """an engine value as a Python value"""
    import z3

    from .ops import dim_t
    from .values import TD, ArrRef, ListRef, MapRef, SetRef, Sym, concrete_keys, list_items, map_get

    if isinstance(v, (bool, int, str, float, Fraction)) or v is None:
        return v
    if isinstance(v, Sym):
        t = z3.simplify(v.t)
        if z3.is_true(t) or z3.is_false(t):
            return z3.is_true(t)
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
        raise Odd(f'not concrete: {t}')
    if isinstance(v, tuple):
        return tuple(native(x) for x in v)
    if isinstance(v, SetRef):
        return ('set', sorted(native(x) for x in list_items(v)))
    if isinstance(v, ListRef):
        it = list_items(v)
        if it is None:
            raise Odd('list without items')
        return [native(x) for x in it]
    if isinstance(v, MapRef):
        return {native(k): native(map_get(v, k)) for k in concrete_keys(v)}
    if isinstance(v, TD):
        return ('td', native(v.s))
    if isinstance(v, ArrRef):
        sh = [z3.simplify(dim_t(n)).as_long() for n in v.shape]

        def rec(i):
            return native(v.at(tuple(i))) if len(i) == len(sh) else [rec([*i, j]) for j in range(sh[len(i)])]

        return ('arr', sh, rec([]))
    raise Odd(f'{type(v).__name__}')


def pyform(v):
    import numpy as np

    if isinstance(v, np.ndarray):
        return ('arr', list(v.shape), v.tolist())
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, tuple):
        return tuple(pyform(x) for x in v)
    if isinstance(v, list):
        return [pyform(x) for x in v]
    if isinstance(v, dict):
        return {k: pyform(x) for k, x in v.items()}
    if isinstance(v, set):
        return ('set', sorted(pyform(x) for x in v))
    if isinstance(v, timedelta):
        return ('td', v.total_seconds())
    return v


def alike(p, q):
    if isinstance(p, bool) or isinstance(q, bool):
        return p is q or (p == q and isinstance(p, (bool, int)) and isinstance(q, (bool, int)))
    if isinstance(p, (int, float, Fraction)) and isinstance(q, (int, float, Fraction)):
        return abs(float(p) - float(q)) <= 1e-9 * max(1, abs(float(q)))
    if isinstance(p, dict) and isinstance(q, dict):
        return list(p) == list(q) and all(alike(p[k], q[k]) for k in p)
    if isinstance(p, (list, tuple)) and isinstance(q, (list, tuple)):
        return type(p) is type(q) and len(p) == len(q) and all(alike(x, y) for x, y in zip(p, q))
    return type(p) is type(q) and p == q


def inputs(rng):
    return {'a': rng.randint(-5, 9), 'b': rng.randint(-5, 9), 'c': rng.randint(-5, 9), 'x': rng.randint(-40, 40) / 8, 'y': rng.randint(-40, 40) / 8,
            'l': [rng.randint(0, 9) for _ in range(rng.randint(2, 5))], 'd': {k: rng.randint(0, 9) for k in rng.sample(['p', 'q', 'r', 't'], 2)},
            's': rng.choice(['ab', 'a/b', 'xyz', 'ba/na'])}


def lift(v):
    """a Python value as an engine value"""
    from .values import ListRef, MapRef

    if isinstance(v, list):
        return ListRef(v)
    if isinstance(v, dict):
        return MapRef(v.items())
    return v


def run_src(k, src, module, *args):
    from .interp import Env

    m = k.ip.module(module)
    env = Env(m.env, m)
    return k._do(lambda: k.ip.call(k.ip.mkfunc(ast.parse(src).body[0], env), list(args), {}), True)


def interpret(ip, node, args):
    """run one snippet in the engine: ('value', v) or ('raised', class name), or ('unsupported', why)"""
    from contracts import kit

    from . import core

    out = []

    def path():
        ip.stubs, ip.bypass, ip.loop_rules, ip.havoc = {}, set(), {}, {}
        ip.called, ip.on_assign, ip.entry_inv = {}, None, None
        run.heap.update(ip.base_heap)
        k = kit.Kit(ip, run, 'T', 'selftest')
        r = run_src(k, ast.unparse(node), 'gerabaldi.models.reports', *[lift(args[n.arg]) for n in node.args.args])
        out.append(('raised', r.name) if isinstance(r, kit.Raised) else ('value', native(r)))

    run = core.Run('T', timeout_ms=4000, max_paths=50)
    try:
        run.explore(path, 'selftest')
    except Odd as e:
        return 'unsupported', str(e)
    if len(out) != 1:
        why = next((o.detail for o in run.obligs.values() if o.status == 'unsupported'), f'{len(out)} paths')
        return 'unsupported', why
    return out[0]


def cross_check(ip):
    import copy

    import numpy as np
    import pandas as pd

    rng = random.Random(1)
    bad, seen, odd = 0, 0, {}
    for node in ast.parse(SNIPPETS).body:
        env = types.ModuleType('snippet').__dict__
        env.update(np=np, pd=pd, timedelta=timedelta)
        exec(compile(ast.Module([node], []), node.name, 'exec'), env)
        for _ in range(4):
            args = inputs(rng)
            try:
                want = 'value', pyform(env[node.name](**copy.deepcopy(args)))
            except Exception as e:
                want = 'raised', next(t.__name__ for t in type(e).__mro__ if t.__module__ == 'builtins')
            got = interpret(ip, node, args)
            if got[0] == 'unsupported':
                odd[node.name] = got[1]
                continue
            seen += 1
            if not (got[0] == want[0] and alike(got[1], want[1])):
                bad += 1
                print(f'selftest: {node.name}({args}): engine {got}, CPython {want}')
    for n, why in odd.items():
        print(f'selftest: {n}: out of reach ({why[:140]})')
    print(f'selftest: {seen} runs of snippets agree with CPython' if not bad else f'selftest: {bad} of {seen} runs differ')
    return bad


# ---- unknown inputs: (name, program, verdict per obligation)
def logic(ip):
    import z3

    from contracts import kit

    from . import core
    from .values import T_INT, rterm, wrap

    def total(k):
        """sum over a list of any length"""
        coll = k.names('names')
        m = k.map(coll, lambda n: k.int('v', 0))
        r = run_src(k, 'def f(m):\n t = 0\n for n in m:\n  t += m[n]\n return t\n', 'gerabaldi.models.reports', m)
        k.ensure('bad.positive', rterm(r) > 0)

    def clamp(k):
        x = k.int('x')
        r = run_src(k, 'def f(x):\n if x < 0:\n  return 0\n if x > 10:\n  return 10\n return x\n', 'gerabaldi.models.reports', x)
        k.ensure('good.range', z3.And(rterm(r) >= 0, rterm(r) <= 10))
        k.ensure('good.keeps', z3.Implies(z3.And(x.t >= 0, x.t <= 10), rterm(r) == rterm(x)))
        k.ensure('bad.below', rterm(r) < 10)

    def copies(k):
        """copies and aliases of a dictionary with any names"""
        m = k.map(k.names('names'), lambda n: k.int('v'))
        n = k.map(k.names('more'), lambda n: k.int('w'))
        r = run_src(k, 'def f(m, n):\n c = dict(m)\n c.update(n)\n return c\n', 'gerabaldi.models.reports', m, n)
        from .values import ABSENT, map_get
        q = kit.sname('q')
        got, a, b = map_get(r, q), map_get(m, q), map_get(n, q)
        want = a if b is ABSENT else b
        k.ensure('good.update', got is want if want is ABSENT or got is ABSENT else kit.zeq(got, want))
        k.ensure('bad.first_wins', got is a if a is ABSENT or got is ABSENT else kit.zeq(got, a))

    def elements(k):
        sh = (k.int('n', 1).t, k.int('m', 1).t)
        a, b = k.arr('a', sh), k.arr('b', sh)
        r = run_src(k, 'def f(a, b):\n return (a * 2 + b).reshape(-1)\n', 'gerabaldi.models.reports', a, b)
        i, j = k.index(sh)
        at = r.at((z3.simplify(i * sh[1] + j),))
        k.ensure('good.order', rterm(at) == 2 * rterm(a.at((i, j))) + rterm(b.at((i, j))))
        k.ensure('bad.swapped', rterm(at) == 2 * rterm(b.at((i, j))) + rterm(a.at((i, j))))

    def handlers(k):
        m = k.map(k.names('names'), lambda n: k.int('v'))
        q = kit.sname('q')
        r = run_src(k, "def f(m, q):\n try:\n  return m[q], 'there'\n except KeyError:\n  return 0, 'absent'\n", 'gerabaldi.models.reports', m, q)
        from .values import ABSENT, map_get
        k.ensure('good.handler', (r[1] == 'absent') == (map_get(m, q) is ABSENT))
        k.ensure('bad.always', r[1] == 'there')

    def counter(k):
        coll = k.names('names')
        coll.length = k.int('n', 1).t
        m = k.map(coll, lambda n: k.int('v', 0))
        src = 'def f(m):\n i, r = {s}, {{}}\n for n in m:\n  {c}i += 2\n  r[n] = i\n return r, i\n'
        q = coll.fresh('q')
        r, i = run_src(k, src.format(s=3, c=''), 'gerabaldi.models.reports', m)
        from .values import map_get
        k.ensure('good.end', rterm(i) == 3 + 2 * coll.length)
        k.ensure('good.above', rterm(map_get(r, q)) > 0)
        k.ensure('bad.above', rterm(map_get(r, q)) > 5)
        r, i = run_src(k, src.format(s=0, c='if m[n] > 3: '), 'gerabaldi.models.reports', m)
        k.ensure('bad.end', rterm(i) == 2 * coll.length)

    def grid(k):
        n, m = k.int('n', 1), k.int('m', 1)
        a = k.arr('a', (n.t, m.t))
        r = run_src(k, 'def f(a, n, m):\n r = np.zeros((n, m))\n for i, j in np.ndindex(n, m):\n  r[i][j] = a[i][j] * 2\n return r\n',
                    'gerabaldi.models.devices', a, n, m)
        i, j = k.index((n.t, m.t))
        k.ensure('good.grid', rterm(r.at((i, j))) == 2 * rterm(a.at((i, j))))
        k.ensure('bad.grid', rterm(r.at((i, j))) == rterm(a.at((i, j))))

    def turned(k):
        n = k.int('n', 2)
        a = k.arr('a', (n.t,))
        r = run_src(k, 'def f(a):\n r = np.zeros(len(a))\n for i, v in enumerate(reversed(a)):\n  r[i] = v\n return r\n', 'gerabaldi.models.devices', a)
        (i,) = k.index((n.t,))
        k.ensure('good.turned', rterm(r.at((i,))) == rterm(a.at((z3.simplify(n.t - 1 - i),))))
        k.ensure('bad.turned', rterm(r.at((i,))) == rterm(a.at((i,))))

    wrong = 0
    for fn in (total, turned, clamp, copies, elements, handlers, counter, grid):
        run = core.Run('S.' + fn.__name__, timeout_ms=8000, max_paths=2000)

        def path():
            ip.stubs, ip.bypass, ip.loop_rules, ip.havoc = {}, set(), {}, {}
            ip.called, ip.on_assign, ip.entry_inv = {}, None, None
            run.heap.update(ip.base_heap)
            fn(kit.Kit(ip, run, 'S.' + fn.__name__, 'selftest'))

        run.explore(path, 'selftest')
        run.finish('selftest')
        for o in run.obligs.values():
            if ('.good.' in o.id and o.status != 'proved') or ('.bad.' in o.id and o.status not in ('refuted', 'unknown')):
                wrong += 1
                print(f'selftest: {o.id} is {o.status}: {o.detail[:300]}')
    if not wrong:
        print('selftest: obligations that hold are discharged, the others are not')
    return wrong


def main():
    from .prove import make_interp

    ip = make_interp()
    bad = cross_check(ip) + logic(ip)
    print('selftest: ok' if not bad else 'selftest: FAILED')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
