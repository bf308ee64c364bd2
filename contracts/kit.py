"""What contracts are written with: symbolic inputs, calls of the real functions, and proof goals."""

from __future__ import annotations

import ast
from contextlib import contextmanager
from fractions import Fraction

import z3

from pyvc import ops
from pyvc.core import Infeasible, Unsupported, cur
from pyvc.interp import Bound, Builtin, ClassVal, Env, Func
from pyvc.lib import DrawFn, const_arr, iprod
from pyvc.ops import KeysView, TypeV, dim_t, dim_val
from pyvc.values import *  # noqa: F403
from pyvc.values import ABSENT, T_BOOL, T_FLOAT, T_INT, T_NUM, T_STR

REGISTRY = []


def contract(cid, function, doc=''):
    """register the contract `cid` of a real function"""

    def deco(fn):
        REGISTRY.append((cid, function, doc or (fn.__doc__ or '').strip(), fn))
        return fn

    return deco


class Raised:
    """the call raised"""

    def __init__(self, exc):
        self.exc = exc
        self.name = exc.cls.name if isinstance(exc.cls, ClassVal) else exc.cls.__name__

    def __repr__(self):
        return f'raise {self.name}'


class Kit:
    """one path of one contract"""

    def __init__(self, ip, run, cid, function):
        self.ip, self.run, self.cid, self.function = ip, run, cid, function

    # ---- calls
    def _do(self, fn, prep=False):
        run = self.run
        region = run.region
        if not prep:
            run.region = None
        try:
            return fn()
        except PyExc as e:
            return Raised(e)
        finally:
            run.region = region

    @contextmanager
    def region(self, name):
        """what is made inside is part of that input of the contract"""
        run = self.run
        old, run.region = run.region, name
        try:
            yield
        finally:
            run.region = old

    def call(self, qual, *args, **kw):
        return self._do(lambda: self.ip.call_real(qual, list(args), kw))

    def private(self, qual, **kw):
        """call an internal function: by name of its parameters, Unsupported when they are not the expected ones"""
        f = self.ip.resolve(qual)
        a = f.node.args
        if {x.arg for x in [*a.posonlyargs, *a.args, *a.kwonlyargs]} != set(kw):
            raise Unsupported(f'{qual} has other parameters than its contract')
        return self._do(lambda: self.ip.call_real(qual, [], kw))

    def meth(self, obj, name, *args, **kw):
        """call a method of an object the way user code does (dynamic dispatch)"""
        return self._do(lambda: self.ip.call(self.ip.getattr(obj, name), list(args), kw))

    def spec(self, src, module, *args):
        """a specification function written in Python, evaluated by the engine in the name space of a module of the program"""
        m = self.ip.module(module)
        node = ast.parse(src).body[0]
        env = Env(m.env, m)
        inexact = self.run.inexact
        try:
            return self._do(lambda: self.ip.call(self.ip.mkfunc(node, env), list(args), {}), True)
        finally:
            self.run.inexact = inexact

    def set(self, obj, name, val):
        return self._do(lambda: self.ip.setattr(obj, name, val), True)

    def get(self, obj, name):
        return self._do(lambda: self.ip.getattr(obj, name), True)

    def cls(self, qual):
        return self.ip.resolve(qual)

    def new(self, qual, *args, **kw):
        return self._do(lambda: self.ip.instantiate(self.cls(qual), list(args), kw), True)

    def new_with(self, qual, kwmap, *args, **kw):
        """construct with any number of further keyword arguments"""
        return self._do(lambda: self.ip.instantiate(self.cls(qual), list(args), kw, kwmap), True)

    def truth(self, v):
        return truth(v)

    # ---- goals
    def ensure(self, name, goal, detail=''):
        if isinstance(goal, Sym):
            goal = goal.t
        return self.run.prove(f'{self.cid}.{name}', self.function, goal, detail)

    def ensure_soft(self, name, goal, detail=''):
        """a sufficient condition: proved or undecided, never refuted"""
        old, self.run.inexact = self.run.inexact, 'sufficient condition only'
        try:
            return self.ensure(name, goal, detail)
        finally:
            self.run.inexact = old

    def returns(self, name, r):
        """the call returned normally (prunes the path otherwise)"""
        ok = not isinstance(r, Raised)
        self.ensure(name, ok, f'the call ended with {r!r}' if not ok else '')
        if not ok:
            raise Infeasible
        return r

    def raises(self, name, r, exc):
        self.ensure(name, isinstance(r, Raised) and r.name == exc, f'expected {exc}, got {r!r}')

    def assume(self, f):
        self.run.fact(f.t if isinstance(f, Sym) else f)

    # ---- inputs
    def real(self, name='x', ty=T_FLOAT):
        return sreal(name, ty)

    def num(self, name='x'):
        return sreal(name, ty=T_NUM)

    def int(self, name='n', lo=None, hi=None):
        v = sint(name)
        if lo is not None:
            self.run.fact(v.t >= lo)
        if hi is not None:
            self.run.fact(v.t <= hi)
        return v

    def pick(self, *opts):
        """case split of the contract"""
        return opts[self.run.choose(len(opts))]

    def arr(self, name, shape, label=None, dtype='float'):
        """an array of arbitrary reals (dtype 'any': possibly of integers)"""
        sh = tuple(d if isinstance(d, int) else (d.t if isinstance(d, Sym) else d) for d in shape)
        f = z3.Function(f'{name}!{self.run.fresh_id()}', *([z3.IntSort()] * len(sh)), z3.RealSort())
        return ArrRef(sh, lambda idx: Sym(f(*[dim_t(i) for i in idx]), T_FLOAT), label=label, dtype=dtype)

    def index(self, shape, name='i'):
        """a generic in-range index"""
        out = []
        for j, d in enumerate(shape):
            if isinstance(d, int) and d == 1:
                out.append(z3.IntVal(0))
                continue
            i = z3.Int(f'{name}{j}!{self.run.fresh_id()}')
            self.run.fact(z3.And(i >= 0, i < dim_t(d)))
            out.append(i)
        return tuple(out)

    def names(self, name, label=None, nonempty=None):
        """an unbounded set of names"""
        f = z3.Function(f'in_{name}!{self.run.fresh_id()}', z3.IntSort(), z3.BoolSort())
        return SColl(f'{name}{self.run.fresh_id()}', lambda k: z3_member(f, k), nonempty=nonempty)

    def name_list(self, coll, label=None):
        return ListRef(segs=(('coll', coll),), label=label)

    def map(self, coll, get, label=None):
        return MapRef(layers=(('base', MapBase(coll, get)),), label=label)

    def rv(self, name='rv', label=None):
        """a user's random variable: an unknown subclass of RandomVar; every sample is fresh"""
        base = self.cls('random_vars.RandomVar')
        c = ClassVal('UserRV', [base], {}, base.module)
        return ObjRef(c, {'name': None, '_dist_type': 'user'}, label=label)

    def at(self, arr, idx):
        if isinstance(arr, ArrRef):
            return arr.at(tuple(idx))
        raise Unsupported(f'result is not an array: {arr!r}')


class Specs:
    """what a contract knows about the objects it handed out, by key (part of the path's state)"""

    def __init__(self):
        self.key = ('specs', cur().fresh_id())

    def add(self, k, v):
        ex = cur().extra
        ex[self.key] = (*ex.get(self.key, ()), (k, v))

    def find(self, k):
        known = cur().extra.get(self.key, ())
        for kk, v in known:
            if kk is k or key_eq(kk, k) is True:
                return v
        for kk, v in known:
            if key_eq_decide(kk, k):
                return v
        raise Unsupported('contract: object not handed out')


def z3_member(f, k):
    if not is_name(k):
        return False
    if isinstance(k, SStr):
        raise Unsupported('membership of a composed string')
    return wrap(f(term(k)))


def dims_of(a):
    return tuple(dim_val(d) for d in a.shape)


def zeq(a, b):
    """equality goal of two scalars"""
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported('unknown value')
    if a is None or b is None:
        return a is b
    if isinstance(a, TD) and isinstance(b, TD):
        a, b = a.s, b.s
    if is_name(a) != is_name(b):
        return False
    if is_name(a):
        return key_eq(a, b)
    if not is_num(a) or not is_num(b):
        return a is b
    return rterm(a) == rterm(b)


def bind(f, args, kwargs, names, method=False):
    """arguments of a stubbed real function by parameter name; Unsupported when the function's parameters are not the expected ones"""
    a = f.node.args
    have = [x.arg for x in [*a.posonlyargs, *a.args, *a.kwonlyargs]]
    if method:
        have = have[1:]
        args = args[1:]
    if set(have) != set(names) or a.vararg or a.kwarg:
        raise Unsupported(f'{f.qualname} has other parameters than its contract')
    pos = have[: len(have) - len(a.kwonlyargs)]
    out = dict(zip(pos, args))
    for n, v in kwargs.items():
        if n not in have or n in out:
            raise PyExc(TypeError)
        out[n] = v
    for n, d in zip(pos[len(pos) - len(f.defaults):], f.defaults):
        out.setdefault(n, d)
    for n, d in f.kwdefaults.items():
        out.setdefault(n, d)
    if set(out) != set(names):
        raise PyExc(TypeError)
    return out


# ------------------------------------------------------------------------------------------------------------ random draws
def stub_samples(k):
    """contract of RandomVar.sample (C16): a fresh independent sample of that variable with the requested number of values"""

    def sample(ip, f, args, kwargs, kwmap):
        obj = args[0]
        q = args[1] if len(args) > 1 else kwargs.get('quantity', 1)
        run = cur()
        d = DrawFn(f'{run.fresh_id()}', obj)
        n = ops.dim_of(q)
        run.extra['draws'] = (*run.extra.get('draws', ()), (d, obj, n))

        def fn(idx):
            return d(idx)

        fn.draw = d
        if isinstance(n, int) and n == 1:
            fn = lambda idx: d.on()  # noqa: E731
            fn.draw = d
        return ArrRef((n,), fn)

    k.ip.stubs['random_vars.RandomVar.sample'] = sample


def draws_in(t, obj):
    """applications of draws of random variable obj inside a term: list of argument tuples with the term"""
    found = []
    names = {}
    for d, o, n in cur().extra.get('draws', ()):
        if o is obj:
            names[f'draw!{d.tag}!'] = d
    seen, todo = set(), [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            n = e.decl().name()
            if any(n.startswith(p) for p in names):
                found.append((tuple(e.children()), e))
        todo.extend(e.children())
    return found


def all_draws_in(t):
    found = []
    seen, todo = set(), [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().name().startswith('draw!'):
            found.append(e)
        todo.extend(e.children())
    return found


def one_draw(k, name, t, obj, idx, layers=1):
    """the term contains exactly one draw of obj addressed by exactly the indices idx (in some order); obj serves that many layers"""
    apps = draws_in(t, obj)
    want = sorted(str(i) for i in idx)
    total = len(apps)
    apps = [a for a in apps if sorted(str(x) for x in a[0]) == want] or apps
    ok = len(apps) == 1 and total == layers and sorted(str(a) for a in apps[0][0]) == want
    k.ensure(name, ok, f'draws used: {[str(e) for _, e in apps]}, expected one per {want}')
    if not ok:
        raise Infeasible
    return apps[0][1]


# --------------------------------------------------------------------------------------------------------- state equality
def same_state(a, b, memo=None, ignore=()):
    """goal: two values are structurally equal (objects created by the code compared field by field, inputs by identity)"""
    memo = memo if memo is not None else set()
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, ObjRef) and isinstance(b, ObjRef):
        if a.label is not None or b.label is not None or a.cls is not b.cls:
            return z3.BoolVal(False)
        if (a.oid, b.oid) in memo:
            return z3.BoolVal(True)
        memo.add((a.oid, b.oid))
        sa, sb = a.st, b.st
        if {x for x in sa if x not in ignore} != {x for x in sb if x not in ignore}:
            return z3.BoolVal(False)
        return z3.And(*[same_state(sa[x], sb[x], memo, ignore) for x in sa if x not in ignore])
    if isinstance(a, (Ref, Bound, Func, Builtin)) or isinstance(b, (Ref, Bound, Func, Builtin)):
        return z3.BoolVal(False)
    if hasattr(a, 'pyvc_same'):
        return z3.BoolVal(bool(a.pyvc_same(b)))
    g = zeq(a, b)
    return z3.BoolVal(g) if isinstance(g, bool) else g
