"""Models of the builtins and library functions the repository uses.

Each model is the trusted meaning of one library function on the value domain (listed in the evidence).  A function without a
model makes the obligation undecided, never proved.
"""

from __future__ import annotations

import ast
from fractions import Fraction

import z3

from . import ops
from .core import Infeasible, Unsupported, cur
from .ops import *  # noqa: F403
from .ops import ItemsView, KeysView, TypeV, ValuesView
from .values import *  # noqa: F403
from .values import ABSENT, T_BOOL, T_FLOAT, T_INT, T_STR

USED = set()


def _b(name):
    def deco(fn):
        from .interp import Builtin

        def g(ip, *a, **k):
            USED.add(name)
            return fn(ip, *a, **k)

        return name, Builtin(name, g)

    return deco


def is_arr(v):
    return isinstance(v, ArrRef)


# ------------------------------------------------------------------------------------------------------- index arithmetic
def radix(r, n, q, d):
    """fact of Euclidean division used by the contracts: r == q*n + d with 0 <= d < n (asserted by the caller)"""
    ex = cur().extra
    ex['radix'] = (*ex.get('radix', ()), (r, n, q, d))


def _same(a, b):
    if z3.eq(z3.simplify(a, som=True), z3.simplify(b, som=True)):
        return True
    return False


def idivmod(r, n):
    """floor division and remainder of index terms"""
    r, n = dim_t(r), dim_t(n)
    if z3.is_int_value(n) and n.as_long() == 1:
        return r, z3.IntVal(0)
    if z3.is_int_value(r) and z3.is_int_value(n) and n.as_long() > 0:
        return z3.IntVal(r.as_long() // n.as_long()), z3.IntVal(r.as_long() % n.as_long())
    for rr, nn, q, d in cur().extra.get('radix', ()):
        if _same(rr, r) and _same(nn, n):
            return q, d
    if cur().valid(z3.And(r >= 0, r < n)):
        return z3.IntVal(0), r
    if not (z3.is_int_value(n) and n.as_long() > 0):
        cur().inexact = cur().inexact or 'index arithmetic by symbolic division'
    return r / n, r % n


def iprod(*ds):
    out = 1
    for d in ds:
        if isinstance(out, int) and isinstance(d, int):
            out = out * d
        elif isinstance(out, int) and out == 1:
            out = d
        elif isinstance(d, int) and d == 1:
            continue
        else:
            out = z3.simplify(dim_t(out) * dim_t(d))
    return out


def same_size(a, b):
    a, b = dim_t(a), dim_t(b)
    if _same(a, b):
        return True
    return cur().fork(z3.simplify(a, som=True) == z3.simplify(b, som=True))


class DrawFn:
    """element function of a fresh sample of a random variable: one independent value per position"""

    def __init__(self, tag, obj=None):
        self.tag, self.obj = tag, obj
        self.f = {}

    def on(self, *idx):
        idx = [dim_t(i) for i in idx]
        n = len(idx)
        if n not in self.f:
            self.f[n] = z3.Function(f'draw!{self.tag}!{n}', *([z3.IntSort()] * n), z3.RealSort()) if n else z3.Real(f'draw!{self.tag}!0')
        return wrap(self.f[n](*idx) if n else self.f[0], T_FLOAT)

    def __call__(self, idx):
        return self.on(*[i for i in idx])


def do_reshape(a, shape):
    old, fn = a.st
    size_old, size_new = iprod(*old), iprod(*shape)
    if not same_size(size_old, size_new):
        raise PyExc(ValueError, ('cannot reshape',))
    draw = getattr(fn, 'draw', None)
    if draw is not None and len(old) == 1:
        # a bijective relabelling of the positions of an independent sample (axes of length one carry no information)
        axes = [j for j, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]

        def f(idx):
            return draw.on(*[idx[j] for j in axes])

        f.draw3 = draw
        return ArrRef(shape, f, dtype=a.dtype)
    const = getattr(fn, 'const', None)
    if const is not None:
        return const_arr(shape, const, a.dtype)

    def f(idx):
        # flatten idx over `shape`, unflatten over `old` (C order)
        if len(old) == len(shape) and all(same_dim(x, y) for x, y in zip(old, shape)):
            return fn(idx)
        if len(shape) == 1:
            flat = dim_t(idx[0])
        else:
            flat = z3.IntVal(0)
            for d, i in zip(shape, idx):
                flat = z3.simplify(flat * dim_t(d) + dim_t(i))
        if len(old) == 1:
            return fn((flat,))
        out = []
        rest = flat
        for j in range(len(old) - 1, -1, -1):
            if j == 0:
                out.append(rest)
            else:
                rest, r = idivmod(rest, old[j])
                out.append(r)
        return fn(tuple(reversed(out)))

    return ArrRef(shape, f, dtype=a.dtype)


def const_arr(shape, v, dtype=None):
    dtype = dtype or kind_of(v)
    def f(idx):
        return v.el(idx) if isinstance(v, BSym) else v

    f.const = v
    return ArrRef(shape, f, dtype=dtype)


def shape_arg(v):
    if isinstance(v, tuple):
        return tuple(dim_of(x) for x in v)
    if isinstance(v, ListRef):
        x = list_items(v)
        if x is None:
            raise Unsupported('symbolic shape')
        return tuple(dim_of(y) for y in x)
    return (dim_of(v),)


def cast(a, dtype):
    """array converted to the given element type"""
    if dtype is None:
        return a
    names = dtype.names if isinstance(dtype, TypeV) else (dtype,) if isinstance(dtype, str) else ()
    if names in (('float',), ('np.float64',), ('float64',)):
        f = frozen(a)
        if a.dtype == 'float' or hasattr(f.fn, 'const'):
            return ArrRef(f.shape, f.fn, dtype='float')
        return ArrRef(f.shape, lambda idx: wrap(rterm(f.fn(idx)), T_FLOAT), dtype='float')
    if names in (('int',), ('int64',)):
        f = frozen(a)
        return ArrRef(f.shape, lambda idx: as_ints(f.fn(idx)), dtype='int')
    raise Unsupported('element type of an array')


def to_arr(ip, v):
    """np.array(v)"""
    if isinstance(v, ArrRef):
        return ArrRef(v.shape, v.st[1], dtype=v.dtype)
    if isinstance(v, SeriesRef):
        n, f = v.st
        return ArrRef((n,), lambda idx: f(dim_t(idx[0])))
    if isinstance(v, (ListRef, tuple)):
        items = list_items(v) if isinstance(v, ListRef) else list(v)
        if items is None:
            segs = v.st
            if len(segs) == 1 and segs[0][0] == 'rep' and len(segs[0][1]) == 1 and segs[0][1][0][0] == 'items' and len(segs[0][1][0][1]) == 1:
                x, n = segs[0][1][0][1][0], segs[0][2]
                if is_num(x):
                    return ArrRef((n,), lambda idx: x, dtype=kind_of(x))
            if len(segs) == 1 and segs[0][0] == 'coll' and segs[0][1].sort == 'int' and segs[0][1].length is not None:
                c = segs[0][1]
                return ArrRef((c.length,), lambda idx: c.elem(wrap(dim_t(idx[0]), T_INT)))
            raise Unsupported('array of a symbolic list')
        subs = [to_arr(ip, x) if isinstance(x, (ListRef, tuple, ArrRef)) else x for x in items]
        if subs and isinstance(subs[0], ArrRef):
            sh = subs[0].shape

            def g(idx):
                i = idx[0]
                if isinstance(i, int) or z3.is_int_value(i):
                    return subs[i if isinstance(i, int) else i.as_long()].at(idx[1:])
                for j, s in enumerate(subs[:-1]):
                    if cur().fork(i == j):
                        return s.at(idx[1:])
                return subs[-1].at(idx[1:])

            return ArrRef((len(subs), *sh), g, dtype=joint_kind(*subs))

        def h(idx):
            i = idx[0]
            if isinstance(i, int) or z3.is_int_value(i):
                return subs[i if isinstance(i, int) else i.as_long()]
            for j, s in enumerate(subs[:-1]):
                if cur().fork(i == j):
                    return s
            return subs[-1]

        return ArrRef((len(subs),), h, dtype=joint_kind(*subs) if subs and all(is_num(x) for x in subs) else 'float')
    if is_num(v):
        return ArrRef((), lambda idx: v, dtype=kind_of(v))
    raise Unsupported(f'array of {type(v).__name__}')


# --------------------------------------------------------------------------------------------------------------- builtins
def build():
    from .interp import NS, Bound, Builtin, ClassVal, CompBody, Dropped, Env, Func, GenVal, Iter, Mixed, ProdVal, ValueExpr

    B = {}

    def reg(table, name):
        def deco(fn):
            def g(ip, *a, **k):
                USED.add(name)
                try:
                    return fn(ip, *a, **k)
                except TypeError as e:
                    if 'positional argument' in str(e) or 'keyword argument' in str(e):
                        raise Unsupported(f'call of {name}: {e}') from e
                    raise

            table[name.split('.')[-1] if '.' in name else name] = Builtin(name, g)
            return fn

        return deco

    for n in ('ValueError', 'TypeError', 'KeyError', 'AttributeError', 'IndexError', 'Exception', 'NotImplementedError', 'UserWarning',
              'StopIteration', 'ImportError', 'SystemError', 'RuntimeError', 'AssertionError', 'ZeroDivisionError', 'OSError',
              'FileNotFoundError', 'OverflowError', 'ArithmeticError', 'LookupError', 'Warning', 'BaseException'):
        B[n] = getattr(__import__('builtins'), n)
    for n in ('int', 'float', 'str', 'bool', 'list', 'dict', 'set', 'tuple', 'object', 'range', 'frozenset'):
        B[n] = TypeV((n,))
    B['None'], B['True'], B['False'] = None, True, False
    DICT = build.dict_methods = {}

    def as_coll(ip, v):
        if isinstance(v, GenVal):
            return ip.iterate(v.to_list())
        return ip.iterate(v)

    @reg(B, 'len')
    def _len(ip, v):
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, ListRef):
            if v.kind == 'set':
                items = list_items(v)
                if items is not None:
                    return len(items)
                if len(v.st) > 1:
                    raise Unsupported('size of a set')
            n = 0
            for s in v.st:
                if s[0] == 'items':
                    n = s_add(n, len(s[1]))
                elif s[0] == 'coll' and s[1].length is not None:
                    n = s_add(n, dim_val(s[1].length))
                elif s[0] == 'coll':
                    L = z3.Int(f'len!{s[1].id}')
                    cur().fact(L >= 0)
                    n = s_add(n, Sym(L, T_INT))
                else:
                    raise Unsupported('length of a symbolic list')
            return n
        if isinstance(v, (MapRef, KeysView)):
            m = v if isinstance(v, MapRef) else v.m
            ks = concrete_keys(m)
            if ks is not None:
                return len(ks)
            c = map_coll(m)
            L = z3.Int(f'len!{c.id}')
            cur().fact(L >= 0)
            return Sym(L, T_INT)
        if isinstance(v, ArrRef):
            if not v.shape:
                raise PyExc(TypeError)
            return dim_val(v.shape[0])
        if isinstance(v, SeriesRef):
            return dim_val(v.st[0])
        if isinstance(v, FrameRef):
            raise Unsupported('length of a frame')
        raise Unsupported(f'len of {type(v).__name__}')

    @reg(B, 'type:range')
    def _range(ip, *a):
        lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if all(isinstance(x, int) for x in (lo, hi, step)):
            return list(range(lo, hi, step))
        if step != 1:
            raise Unsupported('range with a step')
        l, h = term(lo), term(hi)
        return SColl(f'range{z3.simplify(l).sexpr()}..{z3.simplify(h).sexpr()}', lambda k: wrap(z3.And(term(k) >= l, term(k) < h)), 'int',
                     None, h if isinstance(lo, int) and lo == 0 else None)

    def indexed(ip, v):
        """a sequence as list or int-keyed collection"""
        it = as_coll(ip, v)
        if isinstance(it, Mixed):
            raise Unsupported('enumerating a mixed sequence')
        if isinstance(it, SColl) and it.sort == 'int' and it.length is None:
            raise Unsupported('enumerating a range that does not start at zero')
        if isinstance(it, SColl) and it.sort != 'int':
            # positions of a name-keyed collection: the key stays the name, the position is its (unique) index
            return SColl(it.id, it._member, it.sort, lambda k: (position(it, k), it.elem(k)), it.length, it.dup), True
        return it, False

    def reordered(it):
        """the same elements in some other order"""
        run = cur()
        r = SColl(f'order{run.fresh_id()}.{it.id}', it._member, it.sort, None if it.identity else it.elem, it.length, it.dup, it._nonempty)
        r.loop = it.loop
        run.roots[r.id] = run.roots.get(it.id, it.id)
        return r

    @reg(B, 'enumerate')
    def _enumerate(ip, v, start=0):
        it, posd = indexed(ip, v)
        if isinstance(it, list):
            return Iter([(s_add(i, start), x) for i, x in enumerate(it)])
        if posd:
            f = it.elem
            return Iter(SColl(it.id, it._member, it.sort, lambda k: (s_add(f(k)[0], start), f(k)[1]), it.length, it.dup))
        return Iter(SColl(it.id, it._member, it.sort, lambda k: (s_add(k, start), it.elem(k)), it.length, it.dup))

    @reg(B, 'zip')
    def _zip(ip, *vs):
        its = [as_coll(ip, v) for v in vs]
        if all(isinstance(i, list) for i in its):
            return Iter([tuple(x) for x in zip(*its)])
        cs = [i for i in its if isinstance(i, SColl)]
        if len(cs) == len(its) and all(c.id == cs[0].id for c in cs):
            return Iter(SColl(cs[0].id, cs[0]._member, cs[0].sort, lambda k: tuple(c.elem(k) for c in cs), cs[0].length, cs[0].dup))
        raise Unsupported('zip of symbolic sequences')

    @reg(B, 'type')
    def _type(ip, v):
        return type_of(v)

    def isinst(ip, v, t):
        if isinstance(t, tuple):
            return any(isinst(ip, v, x) for x in t)
        tv = type_of(v)
        if isinstance(t, ClassVal):
            return isinstance(tv, ClassVal) and tv.subclass_of(t)
        if isinstance(t, TypeV):
            if isinstance(tv, ClassVal):
                return t.names == ('object',)
            names = set(t.names)
            if 'int' in names:
                names.add('bool')
            if 'float' in names:
                names.add('np.float64')
            if 'timedelta' in names:
                names.add('Timedelta')
            if 'object' in names:
                return True
            return decide_type(tv, names)
        raise Unsupported(f'isinstance of {t!r}')

    @reg(B, 'isinstance')
    def _isinstance(ip, v, t):
        if hasattr(v, 'pyvc_isinstance'):
            return v.pyvc_isinstance(ip, t)
        return isinst(ip, v, t)

    @reg(B, 'getattr')
    def _getattr(ip, o, name, *default):
        return ip.getattr(o, name, default[0] if default else ABSENT)

    @reg(B, 'setattr')
    def _setattr(ip, o, name, v):
        ip.setattr(o, name, v)

    @reg(B, 'hasattr')
    def _hasattr(ip, o, name):
        marker = object()
        try:
            return ip.getattr(o, name, marker) is not marker
        except PyExc as e:
            if e.cls is AttributeError:
                return False
            raise

    @reg(B, 'callable')
    def _callable(ip, v):
        return isinstance(v, (Func, Bound, Builtin, ClassVal)) or hasattr(v, 'pyvc_call')

    def pick(ip, vals, op):
        r = vals[0]
        for x in vals[1:]:
            if isinstance(r, TD) or isinstance(x, TD):
                r = x if truth(compare(ast.Gt() if op == '>' else ast.Lt(), x, r)) else r
            else:
                r = s_where(s_cmp(op)(x, r), x, r)
        return r

    def extremum(ip, op, *a, default=ABSENT, key=None):
        if key is not None:
            it = list(a) if len(a) > 1 else as_coll(ip, a[0])
            if not isinstance(it, list) or not it:
                raise Unsupported('max with key')
            best, kb = it[0], num(ip.call(key, [it[0]], {}))
            for x in it[1:]:
                kx = num(ip.call(key, [x], {}))
                if truth(compare(ast.Gt() if op == '>' else ast.Lt(), kx, kb)):
                    best, kb = x, kx
            return best
        if len(a) > 1:
            return pick(ip, [num(x) for x in a], op)
        it = as_coll(ip, a[0])
        if isinstance(it, list):
            if not it:
                if default is ABSENT:
                    raise PyExc(ValueError)
                return default
            return pick(ip, it, op)
        if isinstance(it, SColl):
            if not it.nonempty():
                if default is ABSENT:
                    raise PyExc(ValueError)
                return default
            # the extremum of an unbounded collection: attained by some element and bounding all of them
            w = it.fresh('arg')
            m = it.elem(w)
            if not is_num(m):
                raise Unsupported('extremum of non-numbers')
            add_forall(it.id, lambda k: as_z(s_cmp(op + '=')(m, it.elem(k))))
            return m
        raise Unsupported('extremum of a mixed sequence')

    @reg(B, 'max')
    def _max(ip, *a, **k):
        return extremum(ip, '>', *a, **k)

    @reg(B, 'min')
    def _min(ip, *a, **k):
        return extremum(ip, '<', *a, **k)

    @reg(B, 'sum')
    def _sum(ip, v, start=0):
        it = as_coll(ip, v)
        if isinstance(it, list):
            r = start
            for x in it:
                r = binop(ast.Add(), r, x)
            return r
        if isinstance(it, SColl):
            h = getattr(ip, 'sum_hook', None)
            if h is not None:
                return h(ip, it, start)
        raise Unsupported('sum over an unbounded collection')

    def quant(ip, v, want):
        """all/any: want is the value that decides early"""
        if isinstance(v, ArrRef):
            raise Unsupported('all/any of an array')
        if isinstance(v, GenVal):
            n = v.n
            if len(n.generators) == 1:
                v.once()
                g = n.generators[0]
                it = ip.iterate(ip.ev(g.iter, v.env))
                from .interp import Env

                def holds(x):
                    e = Env(v.env, v.env.module)
                    ip.assign(g.target, x, e)
                    for c in g.ifs:
                        if not truth(ip.ev(c, e)):
                            return not want
                    return truth(ip.ev(n.elt, e))

                parts = it.parts if isinstance(it, Mixed) else [it]
                for p in parts:
                    if isinstance(p, list):
                        for x in p:
                            if holds(x) == want:
                                return want
                    else:
                        run = cur()
                        b = z3.Bool(f'quant!{run.fresh_id()}')
                        if run.fork(b):
                            k = p.fresh('wit')
                            if holds(p.elem(k)) != want:
                                raise Infeasible
                            return want

                        def none(k, p=p):
                            if holds(p.elem(k)) == want:
                                raise Infeasible

                        add_forall(p.id, none)
                return not want
            v = v.to_list()
        it = ip.iterate(v)
        if isinstance(it, list):
            for x in it:
                if truth(x) == want:
                    return want
            return not want
        raise Unsupported('all/any over an unbounded collection')

    @reg(B, 'all')
    def _all(ip, v):
        return quant(ip, v, False)

    @reg(B, 'any')
    def _any(ip, v):
        return quant(ip, v, True)

    @reg(B, 'abs')
    def _abs(ip, v):
        if isinstance(v, TD):
            return TD(s_abs(v.s), v.pandas)
        return elementwise(s_abs, num(v))

    @reg(B, 'round')
    def _round(ip, v, n=0):
        return np_round(ip, v, n)

    @reg(B, 'type:int')
    def _int(ip, v=0):
        v = num(v)
        if isinstance(v, ArrRef) and iprod(*v.shape) == 1:
            v = v.at(tuple(0 for _ in v.shape))
        if isinstance(v, (int, Fraction)):
            return int(v)
        if isinstance(v, Sym) and z3.is_int(v.t):
            return v
        if isinstance(v, Sym) and z3.is_real(v.t):
            t = z3.simplify(v.t)
            if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
                return wrap(t.arg(0), T_INT)
            return wrap(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)), T_INT)
        raise Unsupported('int()')

    @reg(B, 'type:float')
    def _float(ip, v=0):
        v = num(v)
        if v == 'inf':
            return Sym(INF, T_FLOAT)
        if isinstance(v, (int, Fraction)):
            return Fraction(v)
        if isinstance(v, Sym) and is_num(v):
            return wrap(rterm(v), T_FLOAT)
        raise Unsupported('float()')

    @reg(B, 'type:bool')
    def _bool(ip, v=False):
        return truth(v)

    @reg(B, 'type:str')
    def _str(ip, v=''):
        if is_name(v):
            return v
        if isinstance(v, int):
            return str(v)
        return sname('str')

    @reg(B, 'type:list')
    def _list(ip, v=()):
        if isinstance(v, GenVal):
            return v.to_list()
        r = ListRef()
        r.init = tuple(ip.as_segs(v))
        return r

    @reg(B, 'type:tuple')
    def _tuple(ip, v=()):
        if isinstance(v, GenVal):
            v = v.to_list()
        it = ip.iterate(v)
        if not isinstance(it, list):
            raise Unsupported('tuple of a symbolic sequence')
        return tuple(it)

    @reg(B, 'type:set')
    def _set(ip, v=()):
        if isinstance(v, GenVal):
            v = v.to_list()
        r = SetRef()
        r.init = tuple(ip.as_segs(v))
        return r

    B['type:frozenset'] = B['type:set']

    @reg(B, 'type:dict')
    def _dict(ip, v=None, **kw):
        m = MapRef()
        if isinstance(v, MapRef):
            m.init = v.st
        elif v is not None:
            it = as_coll(ip, v)
            if not isinstance(it, list):
                raise Unsupported('dict of a symbolic sequence')
            for x in it:
                k, y = ip.unpack(x)
                map_set(m, k, y)
        for k, y in kw.items():
            map_set(m, k, y)
        return m

    @reg(B, 'type:object')
    def _object(ip):
        return ObjRef(ClassVal('object', [], {}, None))

    @reg(B, 'sorted')
    def _sorted(ip, v, **k):
        it = as_coll(ip, v)
        if isinstance(it, SColl) and it.sort == 'name' and it.identity and not k:
            r = ListRef()
            r.init = (('coll', reordered(it)),)
            return r
        if isinstance(it, list) and all(isinstance(x, str) for x in it):
            return ListRef(sorted(it))
        raise Unsupported('sorted')

    @reg(B, 'reversed')
    def _reversed(ip, v):
        it = as_coll(ip, v)
        if isinstance(it, list):
            return Iter(list(reversed(it)))
        if isinstance(it, SColl) and it.sort == 'name':
            return Iter(reordered(it))
        if isinstance(it, SColl) and it.length is not None:
            n = it.length
            return Iter(SColl(it.id, it._member, 'int', lambda k: it.elem(wrap(z3.simplify(dim_t(n) - 1 - term(k)), T_INT)), n, it.dup))
        raise Unsupported('reversed')

    @reg(B, 'print')
    def _print(ip, *a, **k):
        return None

    @reg(B, 'map')
    def _map(ip, f, v):
        it = as_coll(ip, v)
        if isinstance(it, list):
            return Iter([ip.call(f, [x]) for x in it])
        x = ast.Name('.x', ast.Load())
        return lazily(ip, it, ast.Call(ValueExpr(f), [x], []))

    @reg(B, 'filter')
    def _filter(ip, f, v):
        it = as_coll(ip, v)
        if isinstance(it, list):
            return Iter([x for x in it if truth(x if f is None else ip.call(f, [x]))])
        x = ast.Name('.x', ast.Load())
        return lazily(ip, it, x, x if f is None else ast.Call(ValueExpr(f), [x], []))

    def lazily(ip, it, elt, cond=None):
        """the generator (elt for .x in it if cond)"""
        g = ast.comprehension(ast.Name('.x', ast.Store()), ValueExpr(it), [cond] if cond is not None else [], 0)
        n = ast.GeneratorExp(elt, [g])
        for x in ast.walk(n):
            if isinstance(x, ast.expr):
                x.lineno = x.col_offset = 0
        return GenVal(ip, n, Env(None, None))

    @reg(B, 'iter')
    def _iter(ip, v):
        if isinstance(v, (ObjRef, Iter, GenVal)):
            return v
        return Iter(ip.iterate(v))

    @reg(B, 'next')
    def _next(ip, v, *d):
        if isinstance(v, ObjRef):
            r = v.cls.lookup('__next__')
            if r:
                return ip.call_func(r[0], [v])
        if isinstance(v, (GenVal, Iter)):
            x = v.first() if isinstance(v, GenVal) else v.next()
            if x is not ABSENT:
                return x
            if d:
                return d[0]
            raise PyExc(StopIteration)
        raise Unsupported('next()')

    @reg(DICT, 'dict.fromkeys')
    def _fromkeys(ip, keys, v=None):
        r = MapRef()
        ip.run_loop(None, as_coll(ip, keys), Env(None, None), lambda x, e: e.vars.__setitem__('x', x),
                    [CompBody(lambda e: map_set(r, e.vars['x'], v), [])])
        return r

    # ---------------------------------------------------------------------------------------------------------------- numpy
    N = {}
    N['ndarray'] = TypeV(('ndarray',))
    N['float64'] = TypeV(('np.float64',))
    N['float32'] = TypeV(('np.float32',))
    N['int64'] = TypeV(('np.int64',))
    N['inf'] = Sym(INF, T_FLOAT)
    N['nan'] = Sym(z3.Real('NAN'), T_FLOAT)
    N['newaxis'] = None
    B['type:np.float64'] = B['type:float']

    def ufunc(name, f, dtype=None, arr=True):
        @reg(N, 'np.' + name)
        def _u(ip, *a, where=None, out=None, dtype=None, **k):
            if where is not None or out is not None or dtype is not None or k:
                raise Unsupported(f'np.{name} with options')
            if any(isinstance(x, Node) for x in a):
                return Node({'multiply': 'mul', 'add': 'add'}.get(name, 'np.' + name), a, {})
            a = [to_arr(ip, x) if isinstance(x, (ListRef, tuple)) else x for x in map(num, a)]
            if any(isinstance(x, SeriesRef) for x in a):
                n = next(x for x in a if isinstance(x, SeriesRef)).st[0]
                fs = [x.st[1] if isinstance(x, SeriesRef) else (lambda i, x=x: x) for x in a]
                return SeriesRef((n, lambda i: f(*[g(i) for g in fs])))
            ops.check_poison(*a)
            if not all(is_num(x) or isinstance(x, ArrRef) for x in a):
                raise Unsupported(f'np.{name} of {[type(x).__name__ for x in a]}')
            return elementwise(f, *a, dtype=_u_dtype)

        _u_dtype = dtype

    ufunc('multiply', s_mul)
    ufunc('add', s_add)
    ufunc('subtract', s_sub)
    ufunc('divide', lambda a, b: s_div(a, b, raising=False), 'float')
    ufunc('true_divide', lambda a, b: s_div(a, b, raising=False), 'float')
    ufunc('power', s_pow)
    ufunc('less', s_cmp('<'), 'bool')
    ufunc('less_equal', s_cmp('<='), 'bool')
    ufunc('greater', s_cmp('>'), 'bool')
    ufunc('greater_equal', s_cmp('>='), 'bool')
    ufunc('equal', s_cmp('=='), 'bool')
    ufunc('not_equal', s_cmp('!='), 'bool')
    ufunc('abs', s_abs)
    ufunc('absolute', s_abs)
    ufunc('fabs', s_abs)
    ufunc('negative', s_neg)
    ufunc('log10', lambda a: wrap(LOG10(rterm(a)), T_FLOAT), 'float')
    ufunc('exp', lambda a: wrap(z3.Function('exp', z3.RealSort(), z3.RealSort())(rterm(a)), T_FLOAT), 'float')
    ufunc('log', lambda a: wrap(z3.Function('ln', z3.RealSort(), z3.RealSort())(rterm(a)), T_FLOAT), 'float')
    ufunc('sqrt', lambda a: wrap(z3.Function('sqrt', z3.RealSort(), z3.RealSort())(rterm(a)), T_FLOAT), 'float')
    ufunc('logical_and', lambda a, b: s_and(as_sb(a), as_sb(b)), 'bool')
    ufunc('logical_or', lambda a, b: s_or(as_sb(a), as_sb(b)), 'bool')
    ufunc('logical_not', lambda a: s_not(as_sb(a)), 'bool')
    ufunc('bitwise_and', s_and, 'bool')
    ufunc('bitwise_or', s_or, 'bool')
    ufunc('invert', s_not, 'bool')
    ufunc('minimum', lambda a, b: s_where(s_cmp('<=')(a, b), a, b))
    ufunc('maximum', lambda a, b: s_where(s_cmp('>=')(a, b), a, b))
    ufunc('sign', lambda a: s_where(s_cmp('>')(a, 0), 1, s_where(s_cmp('<')(a, 0), -1, 0)))
    ufunc('floor', lambda a: wrap(z3.ToReal(z3.ToInt(rterm(a))), T_FLOAT), 'float')

    def special(v):
        """IEEE special value?  (INF, -INF, NAN are distinguished constants of the real model)"""
        return z3.Or(rterm(v) == INF, rterm(v) == -INF, rterm(v) == z3.Real('NAN'))

    ufunc('isfinite', lambda a: wrap(z3.Not(special(a))), 'bool')
    ufunc('isinf', lambda a: wrap(z3.Or(rterm(a) == INF, rterm(a) == -INF)), 'bool')
    ufunc('isnan', lambda a: wrap(rterm(a) == z3.Real('NAN')), 'bool')

    @reg(N, 'np.where')
    def _where(ip, c, *ab):
        if len(ab) != 2:
            raise Unsupported('np.where with one argument')
        a, b = map(num, ab)
        return elementwise(s_where, c, a, b, dtype=joint_kind(a, b))

    def np_round(ip, v, decimals=0):
        def f(a, d):
            if isinstance(d, int) and isinstance(a, int) and d >= 0:
                return a
            if isinstance(a, Sym) and z3.is_int(a.t) and isinstance(d, int) and d >= 0:
                return a
            return wrap(ROUND(rterm(a), iterm(d)), T_FLOAT)

        return elementwise(f, num(v), num(decimals))

    @reg(N, 'np.round')
    def _npround(ip, v, decimals=0):
        return np_round(ip, v, decimals)

    N['around'] = N['round']

    @reg(N, 'np.clip')
    def _clip(ip, v, a_min=None, a_max=None):
        return clip(v, a_min, a_max)

    def clip(v, lo, hi):
        if lo is not None:
            v = elementwise(lambda x, l: s_where(s_cmp('<')(x, l), l, x), v, num(lo))
        if hi is not None:
            v = elementwise(lambda x, h: s_where(s_cmp('>')(x, h), h, x), v, num(hi))
        return v

    @reg(N, 'np.full')
    def _full(ip, shape, v, dtype=None):
        sh = shape_arg(shape)
        v = num(v)
        if isinstance(v, ArrRef):
            f = frozen(v)
            if bshape(f.shape, sh) != sh and not all(same_dim(a, b) for a, b in zip(bshape(f.shape, sh), sh)):
                raise PyExc(ValueError)
            return cast(ArrRef(sh, lambda idx: felem(f, idx, sh), dtype=f.dtype), dtype)
        if not is_num(v):
            raise Unsupported('np.full of a non-number')
        return cast(const_arr(sh, v), dtype)

    def filler(name, val):
        @reg(N, 'np.' + name)
        def _z(ip, shape, dtype=None):
            return cast(const_arr(shape_arg(shape), val, 'float'), dtype)

        @reg(N, f'np.{name}_like')
        def _zl(ip, a, dtype=None):
            return cast(const_arr(a.shape if isinstance(a, ArrRef) else (), val, kind_of(a)), dtype)

    filler('zeros', 0)
    filler('ones', 1)

    @reg(N, 'np.full_like')
    def _fl(ip, a, v, dtype=None):
        k = kind_of(a)
        if dtype is None and k not in ('float', kind_of(num(v))):
            if k != 'int':
                raise Unsupported('full_like of an array of unknown element type')
            dtype = B['int']
        if isinstance(a, ArrRef):
            return _full(ip, tuple(dim_val(d) for d in a.shape), v, dtype)
        if is_num(a):
            return cast(const_arr((), num(v)), dtype)
        raise Unsupported('full_like')

    @reg(N, 'np.empty')
    def _empty(ip, shape, dtype=None):
        sh = shape_arg(shape)
        i = cur().fresh_id()
        u = z3.Function(f'uninit!{i}', *([z3.IntSort()] * len(sh)), z3.RealSort())
        return cast(ArrRef(sh, lambda idx: Sym(u(*[dim_t(x) for x in idx]), T_FLOAT)), dtype)

    @reg(N, 'np.empty_like')
    def _emptyl(ip, a, dtype=None):
        if dtype is None and kind_of(a) != 'float':
            raise Unsupported('empty_like of an array of other numbers')
        return _empty(ip, tuple(dim_val(d) for d in a.shape), dtype)

    @reg(N, 'np.array')
    def _array(ip, v, dtype=None, copy=True, ndmin=0):
        if ndmin:
            raise Unsupported('ndmin')
        return cast(to_arr(ip, v), dtype)

    @reg(N, 'np.asarray')
    def _asarray(ip, v, dtype=None):
        return v if isinstance(v, ArrRef) and dtype is None else cast(to_arr(ip, v), dtype)

    @reg(N, 'np.copy')
    def _copy(ip, v):
        return to_arr(ip, v)

    @reg(N, 'np.ndim')
    def _ndim(ip, v):
        if isinstance(v, BSym) or is_num(v):
            return 0
        if isinstance(v, ArrRef):
            return len(v.shape)
        raise Unsupported('ndim')

    @reg(N, 'np.shape')
    def _shape(ip, v):
        if isinstance(v, ArrRef):
            return tuple(dim_val(d) for d in v.shape)
        if is_num(v):
            return ()
        raise Unsupported('np.shape')

    @reg(N, 'np.size')
    def _size(ip, v):
        if isinstance(v, ArrRef):
            return dim_val(iprod(*v.shape))
        return 1

    @reg(N, 'np.isscalar')
    def _isscalar(ip, v):
        return is_num(v)

    @reg(N, 'np.reshape')
    def _reshape(ip, a, shape):
        return reshape(a, shape)

    def reshape(a, shape):
        items = list(shape) if isinstance(shape, tuple) else (list_items(shape) if isinstance(shape, ListRef) else [shape])
        if any(x == -1 for x in items if isinstance(x, int)):
            known_ = iprod(*[dim_of(x) for x in items if not (isinstance(x, int) and x == -1)])
            total = iprod(*a.shape)
            if len(items) == 1:
                items = [dim_val(total)]
            else:
                # the missing axis: the quotient when it is evident
                q = quotient(total, known_)
                items = [dim_val(q) if isinstance(x, int) and x == -1 else x for x in items]
        return do_reshape(a, tuple(dim_of(x) for x in items))

    def quotient(total, part):
        if isinstance(total, int) and isinstance(part, int):
            return total // part
        t = z3.simplify(dim_t(total), som=True)
        args = list(t.children()) if z3.is_mul(t) else [t]
        p = z3.simplify(dim_t(part), som=True)
        for x in (list(p.children()) if z3.is_mul(p) else [p]):
            if z3.is_int_value(x) and x.as_long() == 1:
                continue
            for y in args:
                if z3.eq(x, y):
                    args.remove(y)
                    break
            else:
                raise Unsupported('reshape with an inferred axis')
        return iprod(*args) if args else 1

    @reg(N, 'np.expand_dims')
    def _expand(ip, a, axis):
        n = len(a.shape) + 1
        ax = axis if axis >= 0 else axis + n
        f = frozen(a)
        return ArrRef((*f.shape[:ax], 1, *f.shape[ax:]), lambda idx: f.fn((*idx[:ax], *idx[ax + 1 :])))

    @reg(N, 'np.broadcast_to')
    def _bto(ip, a, shape):
        return _full(ip, shape, a)

    @reg(N, 'np.tile')
    def _tile(ip, a, reps):
        if not isinstance(a, ArrRef) or len(a.shape) != 1 or isinstance(reps, tuple):
            raise Unsupported('np.tile of this shape')
        f = frozen(a)
        n = f.shape[0]
        return ArrRef((iprod(n, dim_of(reps)),), lambda idx: f.fn((idivmod(idx[0], n)[1],)), dtype=a.dtype)

    @reg(N, 'np.repeat')
    def _repeat(ip, a, reps, axis=None):
        if axis is not None or not isinstance(a, ArrRef) or len(a.shape) != 1:
            raise Unsupported('np.repeat of this shape')
        f = frozen(a)
        m = dim_of(reps)
        return ArrRef((iprod(f.shape[0], m),), lambda idx: f.fn((idivmod(idx[0], m)[0],)), dtype=a.dtype)

    @reg(N, 'np.linspace')
    def _linspace(ip, start, stop, num=50, dtype=None):
        n = dim_of(num)
        if not (isinstance(dtype, TypeV) and dtype.names == ('int',)):
            raise Unsupported('np.linspace without an integer type')
        # numbers start .. stop in unit steps: only when stop - start == n - 1
        if not cur().valid(iterm(stop) - iterm(start) == dim_t(n) - 1):
            raise Unsupported('np.linspace with a step other than one')
        return ArrRef((n,), lambda idx: s_add(start, wrap(dim_t(idx[0]), T_INT)), dtype='int')

    @reg(N, 'np.arange')
    def _arange(ip, *a, dtype=None):
        lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
        if len(a) > 2:
            raise Unsupported('np.arange with a step')
        n = s_sub(hi, lo)
        return ArrRef((dim_of(n),), lambda idx: s_add(lo, wrap(dim_t(idx[0]), T_INT)), dtype='int')

    @reg(N, 'np.resize')
    def _resize(ip, a, shape):
        f, sh = frozen(reshape(to_arr(ip, a), -1)), shape_arg(shape)
        if len(sh) != 1:
            raise Unsupported('np.resize to more dimensions')
        return ArrRef(sh, lambda idx: f.fn((idivmod(idx[0], f.shape[0])[1],)), dtype=f.dtype)

    @reg(N, 'np.ravel')
    def _ravel(ip, a):
        return reshape(a, -1)

    @reg(N, 'np.all')
    def _npall(ip, a):
        return arr_all(a)

    def arr_all(a):
        if is_num(a):
            return truth(a)
        if k_known(a):
            return all(truth(x) for x in a_elems(a))
        run = cur()
        idx = tuple(fresh('w', z3.IntSort()) for _ in a.shape)
        b = z3.Bool(f'all!{run.fresh_id()}')
        inb = z3.And(*[z3.And(i >= 0, i < dim_t(d)) for i, d in zip(idx, a.shape)]) if idx else z3.BoolVal(True)
        run.fact(z3.Implies(z3.Not(b), z3.And(inb, z3.Not(as_z(as_sb(a.at(idx)))))))
        fz = frozen(a)
        ex = run.extra
        ex['foridx'] = (*ex.get('foridx', ()), (b, fz))
        return Sym(b, T_BOOL)

    @reg(N, 'np.any')
    def _npany(ip, a):
        neg = elementwise(lambda x: s_not(as_sb(x)), a, dtype='bool')
        return lnot(arr_all(neg))

    def k_known(a):
        return all(isinstance(d, int) for d in a.shape) and iprod(*a.shape) <= 16

    def a_elems(a):
        import itertools

        return [a.at(i) for i in itertools.product(*[range(d) for d in a.shape])]

    class ErrState:
        pyvc_context = True

        def pyvc_call(self, ip, args, kwargs, kwmap):
            return self

    N['errstate'] = ErrState()
    N['seterr'] = ErrState()
    from .interp import Poison as _P  # noqa: F401

    RN = {}

    @reg(RN, 'np.random.default_rng')
    def _rng(ip, seed=None):
        return Rng(seed)

    N['random'] = NS('np.random', RN)

    # ------------------------------------------------------------------------------------------------------- other libraries
    def _floor(ip, v):
        v = num(v)
        if isinstance(v, (int, Fraction)):
            import math

            return math.floor(v)
        return wrap(z3.ToInt(rterm(v)), T_INT)

    M = {}
    reg(M, 'math.floor')(_floor)
    reg(M, 'math.log10')(lambda ip, v: wrap(LOG10(rterm(num(v))), T_FLOAT))
    reg(M, 'math.isfinite')(lambda ip, v: wrap(z3.Not(special(v))))
    reg(M, 'math.isnan')(lambda ip, v: wrap(rterm(v) == z3.Real('NAN')))
    reg(M, 'math.isinf')(lambda ip, v: wrap(z3.Or(rterm(v) == INF, rterm(v) == -INF)))
    reg(M, 'math.ceil')(lambda ip, v: wrap(-z3.ToInt(-rterm(num(v))), T_INT))
    M['inf'] = N['inf']

    P = {'DataFrame': TypeV(('DataFrame',)), 'Series': TypeV(('Series',)), 'Timedelta': TypeV(('Timedelta',))}

    @reg(B, 'type:DataFrame')
    def _frame(ip, data=None, index=None, columns=None):
        if data is None:
            return FrameRef(())
        if isinstance(data, ListRef) and index is None:
            rows = list_items(data)
            if rows is not None and len(rows) == 1 and isinstance(rows[0], MapRef):
                return _frame(ip, rows[0], ListRef([0]))
        if not isinstance(data, MapRef):
            raise Unsupported('DataFrame of this data')
        ks = concrete_keys(data) if all(L[0] in ('set', 'del') for L in data.st) else None
        n = None
        if index is not None:
            x = list_items(index) if isinstance(index, ListRef) else None
            if x is None:
                raise Unsupported('DataFrame index')
            n = len(x)
        if ks is None:
            if n != 1:
                raise Unsupported('DataFrame of a symbolic dictionary')
            return FrameRef((Block(1, None, MapRef(layers=data.st)),))
        cols = {}
        for k in ks:
            v = map_get(data, k)
            if isinstance(v, ArrRef):
                if len(v.shape) != 1:
                    raise PyExc(ValueError)
                if n is None:
                    n = v.shape[0]
                elif not same_size(n, v.shape[0]):
                    raise PyExc(ValueError)
        for k in ks:
            v = map_get(data, k)
            if isinstance(v, ArrRef):
                f = frozen(v)
                cols[k] = lambda i, f=f: f.fn((dim_t(i),))
            elif isinstance(v, SeriesRef):
                cols[k] = v.st[1]
                n = v.st[0] if n is None else n
            elif isinstance(v, Ref):
                raise Unsupported('DataFrame column')
            else:
                cols[k] = lambda i, v=v: v
        if n is None:
            raise PyExc(ValueError)
        return FrameRef((Block(n, cols, None),))

    @reg(B, 'type:Series')
    def _series(ip, data=None, **k):
        if k:
            raise Unsupported('Series options')
        if isinstance(data, SeriesRef):
            return data
        if isinstance(data, ArrRef):
            if len(data.shape) != 1:
                raise PyExc(ValueError)
            f = frozen(data)
            return SeriesRef((f.shape[0], lambda i: f.fn((dim_t(i),))))
        if is_num(data):
            return SeriesRef((1, lambda i: data))
        if isinstance(data, (ListRef, tuple)):
            a = to_arr(ip, data)
            f = frozen(a)
            return SeriesRef((f.shape[0], lambda i: f.fn((dim_t(i),))))
        raise Unsupported('Series of this data')

    @reg(P, 'pd.concat')
    def _concat(ip, frames, ignore_index=False, axis=0, **k):
        if axis != 0 or k:
            raise Unsupported('concat options')
        items = as_coll(ip, frames)
        items = items.parts if isinstance(items, Mixed) else [items]
        blocks = []
        for f in [x for part in items for x in (part if isinstance(part, list) else [part])]:
            if isinstance(f, SColl):
                if f.loop is None or f.dup:
                    raise Unsupported('concat of a symbolic list')
                if not f.nonempty():
                    continue
                now = cur().snap()

                def table(k, f=f, now=now):
                    def read():
                        fr = f.elem(k)
                        if not isinstance(fr, FrameRef):
                            raise Unsupported('concat of non-frames')
                        return fr.st

                    return in_view(now, read)

                blocks.append(('tables', f, table))
                continue
            if f is None:
                continue
            if not isinstance(f, FrameRef):
                raise Unsupported('concat of non-frames')
            blocks.extend(f.st)
        return FrameRef(tuple(blocks))

    D = {'timedelta': TypeV(('timedelta',))}
    UNITS = {'days': 86400, 'hours': 3600, 'minutes': 60, 'seconds': 1, 'milliseconds': Fraction(1, 1000), 'microseconds': Fraction(1, 10**6),
             'weeks': 604800}

    @reg(B, 'type:timedelta')
    def _td(ip, *a, **k):
        s = 0
        order = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
        for name, v in [*zip(order, a), *k.items()]:
            if name not in UNITS:
                raise PyExc(TypeError)
            v = num(v)
            if isinstance(v, (TD,)) or not is_num(v):
                raise PyExc(TypeError)
            s = s_add(s, s_mul(v, UNITS[name]))
        return TD(s)

    CP = {}
    reg(CP, 'copy.deepcopy')(lambda ip, v, memo=None: deepcopy(v))

    @reg(CP, 'copy.copy')
    def _shallow(ip, v):
        if isinstance(v, MapRef):
            return MapRef(layers=v.st)
        if isinstance(v, ListRef):
            r = type(v)()
            r.init = v.st
            return r
        if isinstance(v, ObjRef):
            return ObjRef(v.cls, v.st)
        if isinstance(v, ArrRef):
            return to_arr(ip, v)
        return v

    # inference frameworks: every call is recorded as an expression tree
    IM = {}

    @reg(IM, 'importlib.import_module')
    def _import_module(ip, name):
        if name in ('pymc', 'pyro', 'pyro.distributions', 'torch'):
            return Framework(name)
        raise Unsupported(f'import of {name}')

    class Params:
        def __init__(self, names, coll=None):
            self.names, self.coll = names, coll

    I = {}

    @reg(I, 'inspect.signature')
    def _signature(ip, f):
        if isinstance(f, Func):
            a = f.node.args
            m = MapRef([(x.arg, 'param') for x in [*a.posonlyargs, *a.args, *([a.vararg] if a.vararg else []), *a.kwonlyargs,
                                                   *([a.kwarg] if a.kwarg else [])]])
        elif hasattr(f, 'pyvc_params'):
            m = f.pyvc_params()
        else:
            raise Unsupported('signature')
        return Attrs(parameters=m)

    class Attrs:
        def __init__(self, **kw):
            self.kw = kw

        def pyvc_getattr(self, ip, name):
            if name not in self.kw:
                raise Unsupported(f'attribute {name}')
            return self.kw[name]

    class Ctx0:
        """context manager without effect on the computed values"""

        pyvc_context = True

        def pyvc_call(self, ip, args, kwargs, kwmap):
            return self

    W = {'catch_warnings': Ctx0(), 'filterwarnings': Ctx0(), 'simplefilter': Ctx0(), 'warn': Ctx0()}

    def _getlogger(ip, *a):
        return getattr(ip, 'logger_obj', None) or Dropped('logger')

    LG = {n: v for n, v in (('DEBUG', 10), ('INFO', 20), ('WARNING', 30), ('ERROR', 40))}
    reg(LG, 'logging.getLogger')(_getlogger)
    LG['Handler'] = ClassVal('Handler', [], {}, None)
    LG['StreamHandler'] = ClassVal('StreamHandler', [LG['Handler']], {}, None)
    LG['FileHandler'] = ClassVal('FileHandler', [LG['StreamHandler']], {}, None)

    libs = {
        'numpy': NS('numpy', N), 'math': NS('math', M), 'pandas': NS('pandas', P), 'datetime': NS('datetime', D),
        'copy': NS('copy', CP), 'inspect': NS('inspect', I), 'warnings': NS('warnings', W), 'logging': NS('logging', LG),
        'typing': NS('typing', {n: TypeV((n,)) for n in ('Callable', 'Any', 'Optional', 'Union', 'Iterable', 'Sequence', 'Mapping')}),
        'contextlib': NS('contextlib', {}), 'importlib': NS('importlib', IM), 'coloredlogs': NS('coloredlogs', {}),
        'collections': NS('collections', {}), 'itertools': NS('itertools', {}), 'functools': NS('functools', {}),
        'io': NS('io', {}), 'json': NS('json', {}), 'pathlib': NS('pathlib', {}), 'os': NS('os', {}), 'operator': NS('operator', {}),
    }
    @reg(B, 'open')
    def _open(ip, path, mode='r', **k):
        if not is_name(path) or not isinstance(mode, str):
            raise Unsupported('open of something else')
        if mode == 'r':
            if file_find(path) is ABSENT:
                raise PyExc(FileNotFoundError)
        elif mode == 'w':
            file_put(path, None)
            ex = cur().extra
            ex['opened'] = (*ex.get('opened', ()), (path, ex.get('mkdir', ())))
        else:
            raise Unsupported(f'file mode {mode}')
        return PyFile(path, mode)

    J = libs['json'].table

    @reg(J, 'json.dump')
    def _jdump(ip, v, f):
        if not isinstance(f, PyFile) or f.mode != 'w' or file_find(f.path) is not None:
            raise Unsupported('json.dump')
        file_put(f.path, json_value(v))

    @reg(J, 'json.load')
    def _jload(ip, f):
        c = file_find(f.path) if isinstance(f, PyFile) and f.mode == 'r' else ABSENT
        if c is ABSENT or c is None:
            raise Unsupported('json.load')
        return json_value(c)

    @reg(libs['pathlib'].table, 'pathlib.Path')
    def _path(ip, p):
        if not is_name(p):
            raise Unsupported('Path')
        return PyPath(p)

    O = libs['operator'].table
    for nm, f in (('mul', s_mul), ('add', s_add), ('sub', s_sub)):
        reg(O, 'operator.' + nm)(lambda ip, a, b, f=f: elementwise(f, num(a), num(b)))

    @reg(libs['itertools'].table, 'itertools.product')
    def _product(ip, *vs, repeat=1):
        its = [ip.iterate(v) for v in vs] * repeat
        if all(isinstance(i, list) for i in its):
            import itertools

            return [tuple(x) for x in itertools.product(*its)]
        return ProdVal(its)

    @reg(libs['itertools'].table, 'itertools.chain')
    def _chain(ip, *vs):
        its = [ip.iterate(v) for v in vs]
        if not all(isinstance(i, list) for i in its):
            raise Unsupported('itertools.chain over a collection of unknown size')
        return ip.call(B['iter'], [ListRef(segs=(('items', tuple(x for i in its for x in i)),) if any(its) else ())], {})

    @reg(libs['functools'].table, 'functools.reduce')
    def _reduce(ip, f, v, *init):
        items = ip.iterate(v)
        if not isinstance(items, list) or len(init) > 1:
            raise Unsupported('functools.reduce over a collection of unknown size')
        items = [*init, *items]
        if not items:
            raise PyExc(TypeError, ('reduce() of empty iterable with no initial value',))
        r = items[0]
        for x in items[1:]:
            r = ip.call(f, [r, x], {})
        return r

    @reg(N, 'numpy.ndindex')
    def _ndindex(ip, *dims):
        if len(dims) == 1 and isinstance(dims[0], tuple):
            dims = dims[0]
        return _product(ip, *[ip.call(B['range'], [d], {}) for d in dims])

    build.np_round, build.clip, build.reshape, build.arr_all, build.isinst = np_round, clip, reshape, arr_all, isinst
    return B, libs


class Logger:
    """a logging.Logger: its level and its list of handlers; addHandler ignores a handler it has, removeHandler one it has not"""

    def __init__(self, handlers, level):
        self.state = MapRef([('level', level)])
        self.handlers = ListRef(segs=(('items', tuple(handlers)),) if handlers else ())

    def pyvc_getattr(self, ip, name):
        from .interp import Builtin, Dropped

        if name == 'handlers':
            return self.handlers
        if name == 'level':
            return map_get(self.state, 'level')
        if name == 'setLevel':
            return Builtin('Logger.setLevel', lambda ip, v: map_set(self.state, 'level', v))
        if name in ('addHandler', 'removeHandler'):
            def change(ip, h):
                items = list_items(self.handlers)
                has = any(x is h for x in items)
                if name == 'addHandler' and not has:
                    items.append(h)
                elif name == 'removeHandler' and has:
                    items = [x for x in items if x is not h]
                self.handlers.put((('items', tuple(items)),) if items else ())
            return Builtin(f'Logger.{name}', change)
        if name in ('debug', 'info', 'warning', 'warn', 'error', 'log'):
            return Dropped('logger')
        raise Unsupported(f'Logger.{name}')


class Node:
    """an expression of an inference framework"""

    def __init__(self, kind, args, kw):
        self.kind, self.args, self.kw = kind, tuple(args), dict(kw)

    def pyvc_binop(self, op, a, b):
        return Node({ast.Mult: 'mul', ast.Add: 'add'}.get(type(op), type(op).__name__), (a, b), {})

    def __repr__(self):
        return f'{self.kind}({self.args}, {self.kw})'


class Framework:
    """pymc, pyro, torch: constructors record their arguments"""

    HAS = {'pymc': ('Normal', 'Gamma', 'Uniform', 'Deterministic'), 'pyro.distributions': ('Normal', 'Gamma', 'Uniform'), 'pyro': ('sample',),
           'torch': ('multiply', 'mul', 'add')}
    OTHER = {'pymc': (), 'pyro.distributions': ('Deterministic',)}

    def __init__(self, name):
        self.name = name

    def pyvc_getattr(self, ip, name):
        if name in self.HAS[self.name]:
            USED.add(f'{self.name}.{name}')
            return FrameworkFn(self.name, name)
        if name in self.OTHER.get(self.name, ()):
            raise PyExc(AttributeError, (name,))
        raise Unsupported(f'{self.name}.{name}')

    def pyvc_same(self, other):
        return isinstance(other, Framework) and other.name == self.name


class FrameworkFn:
    def __init__(self, mod, fn):
        self.mod, self.fn = mod, fn

    def pyvc_call(self, ip, args, kwargs, kwmap):
        if kwmap is not None:
            raise Unsupported('symbolic arguments of a framework call')
        if self.mod == 'torch':
            if len(args) == 2 and not kwargs and all(is_num(x) for x in args):
                return (s_mul if self.fn in ('multiply', 'mul') else s_add)(*args)
            return Node('mul' if self.fn in ('multiply', 'mul') else 'add', args, kwargs)
        if self.mod == 'pymc' and self.fn == 'Deterministic' and ({'mu', 'sigma', 'alpha', 'beta', 'value'} & set(kwargs) or (not args and len(kwargs) < 2)
                                                                  or 'observed' in kwargs):
            raise PyExc(TypeError)
        left = getattr(ip, 'fw_fault', None)
        if left is not None:
            # a contract may make the framework refuse its n-th call (a name used twice, no model context, ...)
            ip.fw_fault = left - 1
            if left == 1:
                raise PyExc(ip.fw_error)
        return Node(f'{self.mod}.{self.fn}', args, kwargs)


class Rng:
    """numpy Generator: a seeded stream of values; the n-th call of a stream is identified by n"""

    SIGS = {'normal': ('loc', 'scale'), 'gamma': ('shape', 'scale'), 'uniform': ('low', 'high')}
    DEFAULTS = {'loc': 0, 'scale': 1, 'low': 0, 'high': 1}

    def __init__(self, seed):
        self.seed = seed
        self.uid = cur().fresh_id()

    def pyvc_getattr(self, ip, name):
        if name in self.SIGS:
            return RngFn(self, name)
        raise Unsupported(f'random generator method {name}')

    def pyvc_same(self, other):
        return isinstance(other, Rng)


class RngFn:
    def __init__(self, rng, dist):
        self.rng, self.dist = rng, dist

    def pyvc_same(self, other):
        return isinstance(other, RngFn) and other.dist == self.dist

    def pyvc_call(self, ip, args, kwargs, kwmap):
        if kwmap is not None:
            raise Unsupported('symbolic generator arguments')
        sig = self.rng.SIGS[self.dist]
        vals = dict(zip((*sig, 'size'), args))
        for k, v in kwargs.items():
            if k not in (*sig, 'size') or k in vals:
                raise PyExc(TypeError)
            vals[k] = v
        for p in sig:
            if p not in vals:
                if p not in self.rng.DEFAULTS or (p == 'shape'):
                    raise PyExc(TypeError)
                vals[p] = self.rng.DEFAULTS[p]
        run = cur()
        key = ('rngcalls', self.rng.uid)
        n = run.extra.get(key, 0)
        run.extra[key] = n + 1
        size = vals.pop('size', None)
        d = DrawFn(f'{run.fresh_id()}', self)
        d.dist, d.params, d.rng, d.call, d.size = self.dist, vals, self.rng, n, size
        run.extra['rng'] = (*run.extra.get('rng', ()), d)
        if size is None:
            return d.on()
        sh = shape_arg(size)

        def fn(idx):
            return d.on(*idx)

        fn.draw = d
        return ArrRef(sh, fn)


class Block:
    """rows of a data frame: n rows with known columns, or one row described by a dictionary"""

    __slots__ = ('n', 'cols', 'row')

    def __init__(self, n, cols, row):
        self.n, self.cols, self.row = n, cols, row


class Cols(dict):
    """columns of known names and any number of further ones: rest(name) is the column of another name, or ABSENT"""

    rest = None


def with_col(cols, k, f):
    new = Cols({**cols, k: f})
    new.rest = getattr(cols, 'rest', None)
    return new


# ------------------------------------------------------------------------------------------------------------ file system
class PyFile:
    """an open file"""

    pyvc_context = True

    def __init__(self, path, mode):
        self.path, self.mode = path, mode

    def pyvc_getattr(self, ip, name):
        raise Unsupported(f'file.{name}')


class PyPath:
    def __init__(self, path):
        self.path = path

    def pyvc_getattr(self, ip, name):
        from .interp import Builtin

        if name == 'mkdir':
            def mkdir(ip, mode=0o777, parents=False, exist_ok=False):
                ex = cur().extra
                ex['mkdir'] = (*ex.get('mkdir', ()), (self.path, parents, exist_ok))
            return Builtin('pathlib.Path.mkdir', mkdir)
        if name == 'parent' and isinstance(self.path, Sym):
            return PyPath(Sym(DIRNAME(self.path.t), T_STR))
        raise Unsupported(f'Path.{name}')


def file_find(path):
    for p, c in cur().extra.get('files', ()):
        if p is path or key_eq_decide(p, path):
            return c
    return ABSENT


def file_put(path, content):
    ex = cur().extra
    ex['files'] = ((path, content), *ex.get('files', ()))


def json_value(v):
    """the value a JSON text of v is read back as"""
    if v is None or is_name(v) or isinstance(v, bool) or is_num(v) or hasattr(v, 'pyvc_json'):
        return v
    if isinstance(v, MapRef):
        ks = concrete_keys(v) if all(L[0] in ('set', 'del') for L in v.st) else None
        if ks is None:
            raise Unsupported('JSON of a symbolic dictionary')
        return MapRef([(x, json_value(map_get(v, x))) for x in ks])
    if isinstance(v, (ListRef, tuple)):
        items = list(v) if isinstance(v, tuple) else list_items(v)
        if items is None:
            raise Unsupported('JSON of a symbolic list')
        return ListRef([json_value(x) for x in items])
    raise PyExc(TypeError)


DIRNAME = z3.Function('dirname', z3.IntSort(), z3.IntSort())
BASENAME = z3.Function('basename', z3.IntSort(), z3.IntSort())


def as_sb(v):
    """boolean of a number"""
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, Fraction)):
        return v != 0
    if isinstance(v, Sym) and z3.is_bool(v.t):
        return v
    return wrap(term(v) != 0)


def as_z(b):
    return z3.BoolVal(b) if isinstance(b, bool) else (b.t if isinstance(b, Sym) else b)


# ----------------------------------------------------------------------------------------------------------------- methods
def method(ip, o, name):
    from .interp import Builtin

    def B(fn):
        return Builtin(f'{type(o).__name__}.{name}', fn)

    if isinstance(o, MapRef):
        return map_method(ip, o, name, B)
    if isinstance(o, ListRef):
        return list_method(ip, o, name, B)
    if isinstance(o, ArrRef):
        return arr_method(ip, o, name, B)
    if isinstance(o, KeysView):
        return map_method(ip, o.m, name, B)
    if isinstance(o, TD):
        if name == 'total_seconds':
            return B(lambda ip: wrap(rterm(o.s), T_FLOAT))
        if name in ('days', 'seconds', 'microseconds'):
            # 0 <= seconds < 86400 and 0 <= microseconds < 10**6, also for a negative duration
            sec = rterm(o.s)
            whole = z3.ToInt(sec)
            if name == 'days':
                return wrap(z3.ToInt(sec / 86400), T_INT)
            if name == 'seconds':
                return wrap(whole - 86400 * z3.ToInt(sec / 86400), T_INT)
            return wrap((sec - z3.ToReal(whole)) * 10**6, T_FLOAT)
        return ABSENT
    if isinstance(o, (int, Fraction, Sym)) and is_num(o):
        if name == 'is_integer':
            return B(lambda ip: wrap(z3.IsInt(rterm(o))) if not isinstance(o, (int, Fraction)) else Fraction(o).denominator == 1)
        if name in ('shape', 'ndim', 'size') and isinstance(o, Sym) and 'np.float64' in o.ty:
            return {'shape': (), 'ndim': 0, 'size': 1}[name]
        if name == 'item':
            return B(lambda ip: o)
        return ABSENT
    if is_name(o):
        return str_method(ip, o, name, B)
    if isinstance(o, SeriesRef):
        return series_method(ip, o, name, B)
    if isinstance(o, FrameRef):
        return frame_method(ip, o, name, B)
    if isinstance(o, tuple) and name in ('index', 'count'):
        return _uns('tuple method')
    if o is None or isinstance(o, tuple):
        return ABSENT
    if isinstance(o, Builtin := type(ip.builtins['len'])):
        if name in ('__name__',):
            return o.name
    if isinstance(o, TypeV) and name == '__name__':
        return o.names[0]
    if isinstance(o, TypeV) and o.names == ('dict',) and name in build.dict_methods:
        return build.dict_methods[name]
    raise Unsupported(f'{type(o).__name__}.{name}')


def _uns(what):
    raise Unsupported(what)


def map_method(ip, m, name, B):
    if name == 'keys':
        return B(lambda ip: KeysView(MapRef(layers=m.st)))
    if name == 'items':
        return B(lambda ip: ItemsView(m))
    if name == 'values':
        return B(lambda ip: ValuesView(m))
    if name == 'get':
        def get(ip, k, d=None):
            v = map_get(m, k)
            return d if v is ABSENT else v
        return B(get)
    if name == 'copy':
        return B(lambda ip: MapRef(layers=m.st))
    if name == 'update':
        def upd(ip, o=None, **kw):
            if o is not None:
                if not isinstance(o, MapRef):
                    raise Unsupported('update from this value')
                ops.map_update(m, o)
            for k, v in kw.items():
                map_set(m, k, v)
        return B(upd)
    if name == 'pop':
        def pop(ip, k, *d):
            v = map_get(m, k)
            if v is ABSENT:
                if d:
                    return d[0]
                raise PyExc(KeyError)
            map_del(m, k)
            return v
        return B(pop)
    if name == 'setdefault':
        def sd(ip, k, d=None):
            v = map_get(m, k)
            if v is ABSENT:
                map_set(m, k, d)
                return d
            return v
        return B(sd)
    if name == 'clear':
        return B(lambda ip: m.put((('clear',),)))
    return ABSENT


def list_method(ip, l, name, B):
    if name == 'append':
        return B(lambda ip, v: list_append(l, v))
    if name == 'add' and l.kind == 'set':
        return B(lambda ip, v: list_append(l, v))
    if name == 'extend' or (name == 'update' and l.kind == 'set'):
        def ext(ip, v):
            from .interp import GenVal

            list_extend(l, ip.as_segs(v.to_list() if isinstance(v, GenVal) else v))
        return B(ext)
    if name == 'copy':
        def cp(ip):
            r = type(l)()
            r.init = l.st
            return r
        return B(cp)
    if name == 'union' and l.kind == 'set':
        def un(ip, *o):
            r = SetRef()
            r.init = tuple(l.st)
            for x in o:
                list_extend(r, ip.as_segs(x))
            return r
        return B(un)
    if name in ('remove', 'index', 'insert', 'pop', 'count', 'sort', 'reverse', 'clear'):
        def other(ip, *a, **k):
            items = list_items(l)
            if items is None:
                raise Unsupported(f'list.{name}')
            if name == 'remove':
                for i, x in enumerate(items):
                    if x is a[0] or (is_scalarish(x) and is_scalarish(a[0]) and key_eq_decide(x, a[0])):
                        items = items[:i] + items[i + 1:]
                        l.put((('items', tuple(items)),) if items else ())
                        return None
                raise PyExc(ValueError)
            if name == 'pop':
                i = a[0] if a else -1
                if not isinstance(i, int):
                    raise Unsupported('pop')
                v = items.pop(i)
                l.put((('items', tuple(items)),) if items else ())
                return v
            if name == 'insert' and isinstance(a[0], int):
                items.insert(a[0], a[1])
                l.put((('items', tuple(items)),))
                return None
            if name == 'clear':
                l.put(())
                return None
            if name in ('index', 'count') and len(a) == 1:
                hits = [i for i, x in enumerate(items) if truth(ip.compare(ast.Eq(), x, a[0]))]
                if name == 'count':
                    return len(hits)
                if not hits:
                    raise PyExc(ValueError)
                return hits[0]
            raise Unsupported(f'list.{name}')
        return B(other)
    return ABSENT


def str_method(ip, s, name, B):
    if isinstance(s, str):
        if name in ('lower', 'upper', 'capitalize', 'strip', 'rpartition', 'partition', 'split', 'startswith', 'endswith', 'replace', 'title',
                    'rsplit', 'join', 'format', 'removesuffix', 'removeprefix'):
            def f(ip, *a):
                if all(isinstance(x, (str, int)) for x in a):
                    r = getattr(s, name)(*a)
                    return ListRef(r) if isinstance(r, list) else r
                if name == 'join' and isinstance(a[0], ListRef) and list_items(a[0]) is not None:
                    return s.join(list_items(a[0]))
                raise Unsupported(f'str.{name}')
            return B(f)
    if name == 'rpartition' and isinstance(s, Sym):
        # a path with a folder part
        return B(lambda ip, sep: (Sym(DIRNAME(s.t), T_STR), '/', Sym(BASENAME(s.t), T_STR)) if sep == '/' else _uns('rpartition'))
    if name in ('lower', 'upper', 'capitalize', 'strip', 'rpartition', 'partition', 'split', 'startswith', 'endswith', 'replace', 'format', 'join'):
        return B(lambda ip, *a: _uns(f'str.{name} of a symbolic string'))
    return ABSENT


def arr_method(ip, a, name, B):
    from .lib import build

    if name == 'shape':
        return tuple(dim_val(d) for d in a.shape)
    if name == 'size':
        return dim_val(iprod(*a.shape))
    if name == 'ndim':
        return len(a.shape)
    if name == 'T':
        f = frozen(a)
        return ArrRef(tuple(reversed(f.shape)), lambda idx: f.fn(tuple(reversed(idx))))
    if name == 'transpose':
        def tr(ip, *ax):
            f = frozen(a)
            if len(ax) == 1 and isinstance(ax[0], tuple):
                ax = ax[0]
            p = ax or tuple(reversed(range(len(f.shape))))
            inv = [p.index(j) for j in range(len(p))]
            return ArrRef(tuple(f.shape[j] for j in p), lambda idx: f.fn(tuple(idx[i] for i in inv)))
        return B(tr)
    if name == 'reshape':
        return B(lambda ip, *s: build.reshape(a, s[0] if len(s) == 1 else tuple(s)))
    if name in ('flatten', 'ravel'):
        return B(lambda ip: build.reshape(a, -1))
    if name in ('copy',):
        return B(lambda ip: to_arr(ip, a))
    if name == 'astype':
        return B(lambda ip, t: cast(to_arr(ip, a), t))
    if name == 'clip':
        return B(lambda ip, lo=None, hi=None: build.clip(a, lo, hi))
    if name == 'all':
        return B(lambda ip: build.arr_all(a))
    if name == 'round':
        return B(lambda ip, n=0: build.np_round(ip, a, n))
    if name == 'item':
        return B(lambda ip: a.at(tuple(0 for _ in a.shape)) if iprod(*a.shape) == 1 else _uns('item'))
    if name in ('dtype', 'tolist', 'sum', 'mean', 'min', 'max', 'fill', 'any', 'squeeze', 'repeat', 'tobytes', 'swapaxes'):
        return _uns(f'ndarray.{name}')
    return ABSENT


def closure_now(fn):
    from .interp import Bound, Func

    if isinstance(fn, Func):
        return Func(fn.node, fn.env.frozen(), fn.module, fn.qualname, fn.cls, fn.defaults, fn.kwdefaults, fn.static) if fn.env is not None else fn
    if isinstance(fn, Bound):
        return Bound(fn.self_, closure_now(fn.func))
    return fn


def series_method(ip, s, name, B):
    from .lib import build

    n, f = s.st
    if name == 'add':
        return B(lambda ip, o: ops.series_op(ast.Add, s, o))
    if name == 'clip':
        def cl(ip, lower=None, upper=None):
            return SeriesRef((n, lambda i: build.clip(f(i), lower, upper)))
        return B(cl)
    if name in ('apply', 'map'):
        def ap(ip, fn, **kw):
            # further keywords (also axis) are handed to the function, which is called for every value now: does a call raise?
            def probe():
                i = fresh('row', z3.IntSort())
                cur().fact(z3.And(i >= 0, i < dim_t(n)))
                x = f(i)
                before, start = dict(cur().heap), cur().counter
                try:
                    ip.call(fn, [x], dict(kw))
                except PyExc as e:
                    return e
                for oid, st in cur().heap.items():
                    if oid <= start and st is not before.get(oid, st):
                        raise Unsupported('function given to apply changes an object')
                return None

            if name == 'map' and kw:
                raise Unsupported('Series.map options')
            outs = cur().sub_explore(probe)
            if any(outs):
                if not all(outs) or len({type(o.cls) is type and o.cls or id(o.cls) for o in outs}) > 1:
                    raise Unsupported('some calls of apply raise')
                if truth(wrap(dim_t(n) > 0)):
                    raise outs[0]
            # the function works with what it could see now, whenever a value is looked at
            now, g = cur().snap(), closure_now(fn)
            return SeriesRef((n, lambda i: in_view(now, lambda: ip.call(g, [f(i)], dict(kw)))))
        return B(ap)
    if name == 'copy':
        return B(lambda ip: SeriesRef((n, f)))
    if name in ('to_numpy',):
        return B(lambda ip: to_arr(ip, s))
    if name == 'values':
        return to_arr(ip, s)
    if name == 'size':
        return dim_val(n)
    if name == 'iloc':
        return s
    if name == 'round':
        return B(lambda ip, d=0: SeriesRef((n, lambda i: build.np_round(ip, f(i), d))))
    return _uns(f'Series.{name}')


def frame_method(ip, fr, name, B):
    if name == 'copy':
        def cp(ip, deep=True):
            return FrameRef(fr.st)
        return B(cp)
    if name == 'columns':
        return _uns('frame columns')
    if name == 'empty' and all(isinstance(b, Block) for b in fr.st):
        return all(not truth(wrap(dim_t(b.n) > 0)) for b in fr.st)
    h = getattr(ip, 'frame_hook', None)
    if h is not None:
        r = h(ip, fr, name)
        if r is not None:
            return r
    return _uns(f'DataFrame.{name}')


# ------------------------------------------------------------------------------------------------------------------ items
def norm_index(i, n):
    """index into an axis of length n (in bounds or IndexError)"""
    if isinstance(i, ArrRef) and not i.shape:
        i = i.at(())
    if not (isinstance(i, int) or (isinstance(i, Sym) and z3.is_int(i.t))):
        raise Unsupported(f'index {i!r}')
    t, d = term(i), dim_t(n)
    if z3.is_bool(t):
        raise Unsupported('boolean index')
    if isinstance(i, int) and isinstance(n, int):
        if not -n <= i < n:
            raise PyExc(IndexError)
        return i % n
    if isinstance(i, int) and i < 0:
        if not cur().fork(d + i >= 0):
            raise PyExc(IndexError)
        return z3.simplify(d + i)
    if not cur().fork(z3.And(t >= 0, t < d)):
        if cur().fork(z3.And(t < 0, t + d >= 0)):
            return z3.simplify(t + d)
        raise PyExc(IndexError)
    return i if isinstance(i, int) else t


def slice_bounds(s, n):
    """(start, length) of a slice of an axis of length n"""
    if s.step is not None and s.step != 1:
        if s.step == -1 and s.start is None and s.stop is None:
            return 'rev', n
        raise Unsupported('slice step')
    d = dim_t(n)

    def clampv(v):
        t = term(v)
        if isinstance(v, int):
            if v >= 0:
                if isinstance(n, int):
                    return min(v, n)
                if v == 0:
                    return 0
                return n if cur().fork(d < v) else v
            if isinstance(n, int):
                return max(0, n + v)
            return z3.simplify(d + v) if cur().fork(d + v >= 0) else 0
        if cur().fork(t >= 0):
            return t if cur().fork(t <= d) else n
        return z3.simplify(d + t) if cur().fork(d + t >= 0) else 0

    lo = 0 if s.start is None else clampv(s.start)
    hi = n if s.stop is None else clampv(s.stop)
    if isinstance(lo, int) and lo == 0:
        return 0, hi
    if isinstance(lo, int) and isinstance(hi, int):
        return lo, max(0, hi - lo)
    if cur().fork(dim_t(hi) >= dim_t(lo)):
        return lo, z3.simplify(dim_t(hi) - dim_t(lo))
    return lo, 0


def arr_index(a, keys):
    """description of a basic index: list of ('int', i) | ('slice', start, len) | ('new',)"""
    nd = sum(1 for k in keys if k is not None and k is not Ellipsis)
    out = []
    ax = 0
    for k in keys:
        if k is Ellipsis:
            for _ in range(len(a.shape) - nd):
                out.append(('slice', 0, a.shape[ax]))
                ax += 1
        elif k is None:
            out.append(('new',))
        else:
            if ax >= len(a.shape):
                raise PyExc(IndexError)
            if isinstance(k, slice):
                st, ln = slice_bounds(k, a.shape[ax])
                out.append(('slice', st, ln))
            else:
                out.append(('int', norm_index(k, a.shape[ax])))
            ax += 1
    while ax < len(a.shape):
        out.append(('slice', 0, a.shape[ax]))
        ax += 1
    return out


def off(start, i, n):
    if isinstance(start, str) and start == 'rev':
        return z3.simplify(dim_t(n) - 1 - dim_t(i))
    if isinstance(start, int) and start == 0:
        return i
    return z3.simplify(dim_t(start) + dim_t(i))


def getitem(ip, o, k):
    ops.check_poison(o, k)
    if isinstance(o, MapRef):
        v = map_get(o, k)
        if v is ABSENT:
            raise PyExc(KeyError)
        return v
    if isinstance(o, tuple):
        if isinstance(k, slice):
            return o[k]
        if isinstance(k, int):
            if not -len(o) <= k < len(o):
                raise PyExc(IndexError)
            return o[k]
        raise Unsupported('symbolic tuple index')
    if isinstance(o, str) and (isinstance(k, int) or isinstance(k, slice)):
        return o[k]
    if isinstance(o, ListRef):
        items = list_items(o)
        if items is not None:
            if isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                return ListRef(items[k])
            if isinstance(k, int):
                if not -len(items) <= k < len(items):
                    raise PyExc(IndexError)
                return items[k]
        segs = o.st
        if len(segs) == 1 and segs[0][0] == 'coll' and segs[0][1].sort == 'int' and not isinstance(k, slice):
            c = segs[0][1]
            if c.length is not None:
                k = wrap(dim_t(norm_index(k, c.length)), T_INT)
            elif not c.member(k):
                raise PyExc(IndexError)
            known(c.id, k)
            return c.elem(k)
        if segs and segs[0][0] == 'items' and isinstance(k, int) and 0 <= k < len(segs[0][1]):
            return segs[0][1][k]
        if segs and segs[-1][0] == 'items' and isinstance(k, int) and -len(segs[-1][1]) <= k < 0:
            return segs[-1][1][k]
        if len(segs) == 1 and segs[0][0] == 'coll' and isinstance(k, int) and k == 0:
            c = segs[0][1]
            if not c.nonempty():
                raise PyExc(IndexError)
            return c.elem(c.fresh('first'))
        raise Unsupported('index into a symbolic list')
    if isinstance(o, ArrRef):
        if isinstance(k, ArrRef):
            raise Unsupported('array as an index')
        keys = list(k) if isinstance(k, tuple) else [k]
        desc = arr_index(o, keys)
        if all(d[0] == 'int' for d in desc):
            return o.at(tuple(d[1] for d in desc))
        shape = []
        for d in desc:
            if d[0] == 'slice':
                shape.append(d[2])
            elif d[0] == 'new':
                shape.append(1)
        sh0, fn = o.st

        def f(idx):
            src, j = [], 0
            for d in desc:
                if d[0] == 'int':
                    src.append(d[1])
                elif d[0] == 'slice':
                    src.append(off(d[1], idx[j], d[2]))
                    j += 1
                else:
                    j += 1
            return fn(tuple(src))

        r = ArrRef(tuple(shape), f, dtype=o.dtype)
        r.base = o
        return r
    if isinstance(o, SeriesRef):
        n, f = o.st
        if isinstance(k, int):
            return f(dim_t(k))
        raise Unsupported('Series index')
    if isinstance(o, FrameRef):
        if isinstance(k, str):
            blocks = [b for b in o.st]
            if len(blocks) == 1 and isinstance(blocks[0], Block) and blocks[0].cols is not None and k in blocks[0].cols:
                return SeriesRef((blocks[0].n, blocks[0].cols[k]))
            return FrameCol(o.st, k)
        raise Unsupported('frame index')
    if hasattr(o, 'pyvc_getitem'):
        return o.pyvc_getitem(ip, k)
    if o is None:
        raise PyExc(TypeError)
    raise Unsupported(f'indexing of {type(o).__name__}')


class FrameCol:
    """a column of a frame made of several parts: only passed through apply() and stored back"""

    def __init__(self, blocks, col, fns=()):
        self.blocks, self.col, self.fns = blocks, col, fns

    def pyvc_getattr(self, ip, name):
        from .interp import Builtin

        if name in ('apply', 'map'):
            return Builtin('apply', lambda ip, fn, axis=None, **kw: FrameCol(self.blocks, self.col, (*self.fns, (fn, kw))))
        raise Unsupported(f'Series.{name}')


def setitem(ip, o, k, v):
    ops.check_poison(o, k)
    if isinstance(o, MapRef):
        map_set(o, k, v)
        return
    if isinstance(o, ArrRef):
        keys = list(k) if isinstance(k, tuple) else [k]
        if any(isinstance(x, ArrRef) for x in keys):
            if len(keys) == 1 and keys[0].dtype == 'bool' and not isinstance(v, ArrRef) and o.dtype in ('float', kind_of(v)):
                m = frozen(keys[0])
                sh, fn = o.st
                ip.arr_store(o, (sh, lambda idx: s_where(felem(m, idx, sh), v, fn(idx))))
                return
            raise Unsupported('array as an index')
        if o.dtype in ('int', 'any') and kind_of(v) not in ('int', 'bool', o.dtype):
            if o.dtype == 'any':
                raise Unsupported('number stored into an array of unknown element type')
            v = cast(v, ip.builtins['int']) if isinstance(v, ArrRef) else as_ints(v)
        desc = arr_index(o, keys)
        sh, fn = o.st
        vf = frozen(v) if isinstance(v, ArrRef) else v
        vshape = tuple(d[2] for d in desc if d[0] == 'slice')
        if isinstance(vf, Frozen) and not vshape and not all(isinstance(d, int) and d == 1 for d in vf.shape):
            raise Unsupported('array stored into one element')

        def f(idx):
            j = []
            for d, i in zip(desc, idx):
                if d[0] == 'int':
                    if not key_eq_decide(wrap(dim_t(d[1]), T_INT), wrap(dim_t(i), T_INT)):
                        return fn(idx)
                else:
                    if d[1] == 'rev':
                        raise Unsupported('reversed store')
                    full = isinstance(d[1], int) and d[1] == 0
                    rel = dim_t(i) if full else z3.simplify(dim_t(i) - dim_t(d[1]))
                    if not cur().fork(z3.And(rel >= 0, rel < dim_t(d[2]))):
                        return fn(idx)
                    j.append(rel)
            if isinstance(vf, Frozen):
                if not vshape:
                    return vf.fn(tuple(0 for _ in vf.shape))
                return felem(vf, tuple(j), vshape)
            return v

        ip.arr_store(o, (sh, f))
        return
    if isinstance(o, ListRef):
        items = list_items(o)
        if items is not None and isinstance(k, int):
            items[k] = v
            o.put((('items', tuple(items)),))
            return
        raise Unsupported('list element assignment')
    if isinstance(o, FrameRef):
        if isinstance(k, str) and isinstance(v, SeriesRef) and len(o.st) == 1 and isinstance(o.st[0], Block) and o.st[0].cols is not None:
            b = o.st[0]
            o.put((Block(b.n, with_col(b.cols, k, v.st[1]), None),))
            return
        if isinstance(k, str) and isinstance(v, FrameCol) and v.blocks == o.st and v.col == k:
            o.put((('apply', o.st, k, v.fns),))
            return
        if isinstance(k, str) and not isinstance(v, Ref) and len(o.st) == 1 and isinstance(o.st[0], Block) and o.st[0].cols is not None:
            b = o.st[0]
            o.put((Block(b.n, with_col(b.cols, k, lambda i: v), None),))
            return
        raise Unsupported('frame column assignment')
    if hasattr(o, 'pyvc_setitem'):
        return o.pyvc_setitem(ip, k, v)
    raise Unsupported(f'item assignment on {type(o).__name__}')
