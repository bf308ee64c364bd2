"""Arithmetic, comparison and array operations on interpreter values."""

from __future__ import annotations

import ast
from fractions import Fraction

import z3

from .core import Unsupported, cur
from .values import *  # noqa: F403
from .values import ABSENT, T_BOOL, T_FLOAT, T_INT, T_STR

POW10 = z3.Function('pow10', z3.RealSort(), z3.RealSort())
LOG10 = z3.Function('log10', z3.RealSort(), z3.RealSort())
POW = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
ROUND = z3.Function('np_round', z3.RealSort(), z3.IntSort(), z3.RealSort())


def num(v):
    """coerce concrete python numbers into the domain"""
    if isinstance(v, float):
        if v in (float('inf'), float('-inf')):
            return Sym(term(v), T_FLOAT)
        if v != v:
            return Sym(z3.Real('NAN'), T_FLOAT)
        return Fraction(repr(v))
    return v


def is_float(v):
    return isinstance(v, Fraction) or (isinstance(v, Sym) and z3.is_real(v.t))


def dim_t(d):
    return z3.IntVal(d) if isinstance(d, int) else d


def dim_of(v):
    """dimension from an interpreter integer"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Sym) and z3.is_int(v.t):
        return v.t
    raise Unsupported(f'dimension {v!r}')


def dim_val(d):
    return d if isinstance(d, int) else wrap(d, T_INT)


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return z3.eq(z3.simplify(dim_t(a)), z3.simplify(dim_t(b)))


def bdim(a, b):
    """broadcast two dimensions"""
    if same_dim(a, b):
        return a
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    run = cur()
    if run.fork(dim_t(a) == dim_t(b)):
        return a if isinstance(a, int) else b
    if run.fork(dim_t(a) == 1):
        return b
    if run.fork(dim_t(b) == 1):
        return a
    raise PyExc(ValueError, ('operands could not be broadcast together',))


def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        d = 1
        for s in shapes:
            j = i - (n - len(s))
            if j >= 0:
                d = bdim(d, s[j])
        out.append(d)
    return tuple(out)


def bidx(shape, idx, full):
    """index into an array of `shape` broadcast to `full`"""
    off = len(full) - len(shape)
    out = []
    for j, d in enumerate(shape):
        i = idx[off + j]
        if same_dim(d, full[off + j]):
            out.append(i)
        elif isinstance(d, int) and d == 1:
            out.append(0)
        else:
            # decided to be one on this path
            out.append(0 if cur().valid(dim_t(d) == 1) else i)
    return tuple(out)


def elem(v, idx, full):
    if isinstance(v, ArrRef):
        return v.at(bidx(v.shape, idx, full))
    if isinstance(v, BSym):
        return v.el(idx)
    return v


def frozen(v):
    """the current content of an array, detached from later in-place changes"""
    if isinstance(v, ArrRef):
        sh, fn = v.st
        return Frozen(sh, fn, v.dtype)
    return v


class Frozen:
    def __init__(self, shape, fn, dtype='float'):
        self.shape, self.fn, self.dtype = shape, fn, dtype

    def at(self, idx):
        return self.fn(idx)


def felem(v, idx, full):
    if isinstance(v, Frozen):
        return v.fn(bidx(v.shape, idx, full))
    if isinstance(v, BSym):
        return v.el(idx)
    return v


def kind_of(v):
    """element type of an array or the array a number becomes: 'int', 'float', 'bool' or 'any' (int or float)"""
    if isinstance(v, (ArrRef, Frozen)):
        return v.dtype
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, Sym):
        if set(v.ty) <= {'int', 'bool'}:
            return 'bool' if z3.is_bool(v.t) else 'int'
        return 'any' if 'int' in v.ty else 'float'
    return 'float'


def joint_kind(*vs):
    ks = {kind_of(v) for v in vs if v is not None}
    return 'float' if 'float' in ks else 'any' if 'any' in ks else 'int'


def as_ints(x):
    """conversion to an integer: towards zero"""
    if isinstance(x, int):
        return int(x)
    if isinstance(x, Fraction):
        return int(x)
    if isinstance(x, Sym) and set(x.ty) <= {'int', 'bool'}:
        return x
    t = rterm(x)
    return wrap(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)), T_INT)


def elementwise(f, *vs, dtype=None):
    """numpy ufunc semantics; scalars in, scalar out"""
    if not any(isinstance(v, ArrRef) for v in vs):
        if any(isinstance(v, BSym) for v in vs):
            r = f(*vs)
            return BSym(term(r), r.ty if isinstance(r, Sym) else T_FLOAT, lambda idx: f(*[felem(v, idx, idx) for v in vs]))
        return f(*vs)
    fs = [frozen(v) for v in vs]
    shape = bshape(*[v.shape for v in fs if isinstance(v, Frozen)])
    return ArrRef(shape, lambda idx: f(*[felem(v, idx, shape) for v in fs]), dtype=dtype or joint_kind(*fs))


# ---------------------------------------------------------------------------------------------------------------- scalars
def s_add(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return a + b
    if is_float(a) or is_float(b):
        return wrap(rterm(a) + rterm(b), T_FLOAT)
    return wrap(iterm(a) + iterm(b), T_INT)


def iterm(a):
    t = term(a)
    return z3.If(t, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(t) else t


def s_sub(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return a - b
    if is_float(a) or is_float(b):
        return wrap(rterm(a) - rterm(b), T_FLOAT)
    return wrap(iterm(a) - iterm(b), T_INT)


def s_mul(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return a * b
    if is_float(a) or is_float(b):
        return wrap(rterm(a) * rterm(b), T_FLOAT)
    return wrap(iterm(a) * iterm(b), T_INT)


def s_div(a, b, raising=True):
    if isinstance(b, (int, Fraction)):
        if b == 0:
            if raising:
                raise PyExc(ZeroDivisionError)
            return sreal('div0')
    elif raising and cur().fork(rterm(b) == 0):
        raise PyExc(ZeroDivisionError)
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return Fraction(a) / Fraction(b)
    return wrap(rterm(a) / rterm(b), T_FLOAT)


def s_mod(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        if b == 0:
            raise PyExc(ZeroDivisionError)
        return a % b
    if is_float(a) or is_float(b):
        # a - b*floor(a/b)
        if truth(num_eq(b, 0)):
            raise PyExc(ZeroDivisionError)
        q = rterm(a) / rterm(b)
        return wrap(rterm(a) - rterm(b) * z3.ToReal(z3.ToInt(q)), T_FLOAT)
    ta, tb = iterm(a), iterm(b)
    if cur().fork(tb == 0):
        raise PyExc(ZeroDivisionError)
    if not cur().fork(tb > 0):
        raise Unsupported('modulo by a negative number')
    return wrap(ta % tb, T_INT)


def s_floordiv(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        if b == 0:
            raise PyExc(ZeroDivisionError)
        return a // b
    if is_float(a) or is_float(b):
        if truth(num_eq(b, 0)):
            raise PyExc(ZeroDivisionError)
        return wrap(z3.ToReal(z3.ToInt(rterm(a) / rterm(b))), T_FLOAT)
    ta, tb = iterm(a), iterm(b)
    if cur().fork(tb == 0):
        raise PyExc(ZeroDivisionError)
    if not cur().fork(tb > 0):
        raise Unsupported('floor division by a negative number')
    return wrap(ta / tb, T_INT)


def arr_floordiv(a, b):
    """numpy's floor division of integers: no exception, 0 for a divisor of zero"""
    if is_float(a) or is_float(b):
        raise Unsupported('floor division of an array of floats')
    if isinstance(a, int) and isinstance(b, int):
        return a // b if b else 0
    ta, tb = iterm(a), iterm(b)
    if isinstance(b, int) and b > 0:
        return wrap(ta / tb, T_INT)
    return wrap(z3.If(tb > 0, ta / tb, z3.If(tb < 0, (-ta) / (-tb), 0)), T_INT)


def arr_mod(a, b):
    if is_float(a) or is_float(b):
        raise Unsupported('array modulo')
    if isinstance(a, int) and isinstance(b, int):
        return a % b if b else 0
    ta, tb = iterm(a), iterm(b)
    if isinstance(b, int) and b > 0:
        return wrap(ta % tb, T_INT)
    return wrap(z3.If(tb > 0, ta % tb, z3.If(tb < 0, -((-ta) % (-tb)), 0)), T_INT)


def s_pow(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        if isinstance(b, int) and (b >= 0 or a != 0):
            r = Fraction(a) ** b
            return int(r) if isinstance(a, int) and b >= 0 else r
        return Fraction(repr(float(a) ** float(b)))
    if isinstance(b, int) and 0 <= b <= 4:
        r = 1
        for _ in range(b):
            r = s_mul(r, a)
        return r
    if isinstance(a, (int, Fraction)) and a == 10:
        return wrap(POW10(rterm(b)), T_FLOAT)
    return wrap(POW(rterm(a), rterm(b)), T_FLOAT)


def s_neg(a):
    return -a if isinstance(a, (int, Fraction)) else wrap(-iterm(a), T_INT if z3.is_int(iterm(a)) else T_FLOAT)


def s_abs(a):
    if isinstance(a, (int, Fraction)):
        return abs(a)
    t = term(a)
    return wrap(z3.If(t >= 0, t, -t), T_INT if z3.is_int(t) else T_FLOAT)


def s_cmp(op):
    def f(a, b):
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
        ta, tb = term(a), term(b)
        if ta.sort() != tb.sort() or z3.is_bool(ta):
            if not (z3.is_bool(ta) and z3.is_bool(tb) and op in ('==', '!=')):
                ta, tb = rterm(a), rterm(b)
        return wrap({'<': lambda: ta < tb, '<=': lambda: ta <= tb, '>': lambda: ta > tb, '>=': lambda: ta >= tb,
                     '==': lambda: ta == tb, '!=': lambda: ta != tb}[op]())

    return f


def s_and(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a and b
    if isinstance(a, (bool, Sym)) and z3.is_bool(term(a)):
        return wrap(z3.And(term(a), term(b)))
    raise Unsupported('bitwise and')


def s_or(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a or b
    if isinstance(a, (bool, Sym)) and z3.is_bool(term(a)):
        return wrap(z3.Or(term(a), term(b)))
    raise Unsupported('bitwise or')


def s_where(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(c, Sym) and not z3.is_bool(c.t):
        c = Sym(c.t != 0, T_BOOL)
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and a == b and type(a) is type(b):
        return a
    if not is_num(a) or not is_num(b):
        return a if truth(c) else b
    ta, tb = term(a), term(b)
    if ta.sort() != tb.sort():
        ta, tb = rterm(a), rterm(b)
    return wrap(z3.If(c.t, ta, tb), T_FLOAT if z3.is_real(ta) else None)


def s_not(a):
    if isinstance(a, bool):
        return not a
    if isinstance(a, Sym) and z3.is_bool(a.t):
        return wrap(z3.Not(a.t))
    raise Unsupported('invert')


S_OPS = {ast.Add: s_add, ast.Sub: s_sub, ast.Mult: s_mul, ast.Div: s_div, ast.Mod: s_mod, ast.Pow: s_pow, ast.BitAnd: s_and,
         ast.BitOr: s_or, ast.FloorDiv: s_floordiv}


def is_arrayish(v):
    return isinstance(v, (ArrRef, BSym))


def check_poison(*vs):
    for v in vs:
        if isinstance(v, Poison):
            raise Unsupported(v.why)


def binop(op, a, b):
    check_poison(a, b)
    for x in (a, b):
        if hasattr(x, 'pyvc_binop'):
            return x.pyvc_binop(op, a, b)
    a, b = num(a), num(b)
    t = type(op)
    if isinstance(a, SeriesRef) or isinstance(b, SeriesRef):
        return series_op(t, a, b)
    if is_arrayish(a) or is_arrayish(b):
        f = S_OPS[t]
        if t is ast.Div:
            f = lambda x, y: s_div(x, y, raising=False)  # noqa: E731
        if t in (ast.Mod, ast.FloorDiv):
            f = arr_mod if t is ast.Mod else arr_floordiv
        return elementwise(f, a, b, dtype='float' if t is ast.Div else None)
    if isinstance(a, TD) or isinstance(b, TD):
        if t is ast.Add and isinstance(a, TD) and isinstance(b, TD):
            return TD(s_add(a.s, b.s), a.pandas or b.pandas)
        if t is ast.Sub and isinstance(a, TD) and isinstance(b, TD):
            return TD(s_sub(a.s, b.s), a.pandas or b.pandas)
        if t is ast.Mult:
            td, n = (a, b) if isinstance(a, TD) else (b, a)
            if is_num(n):
                return TD(s_mul(td.s, n), td.pandas)
        if t is ast.Div and isinstance(a, TD):
            if isinstance(b, TD):
                return s_div(a.s, b.s)
            if is_num(b):
                return TD(s_div(a.s, b), a.pandas)
        if t is ast.FloorDiv and isinstance(a, TD) and isinstance(b, TD):
            return wrap(z3.ToInt(rterm(s_div(a.s, b.s))), T_INT)
        if t is ast.Mod and isinstance(a, TD) and isinstance(b, TD):
            return TD(s_mod(a.s, b.s))
        raise PyExc(TypeError)
    if is_num(a) and is_num(b):
        return S_OPS[t](a, b)
    if t is ast.Add and is_name(a) and is_name(b):
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        return SStr([a, b]).norm()
    if t is ast.Add and isinstance(a, ListRef) and isinstance(b, ListRef):
        r = ListRef()
        r.init = ()
        list_extend(r, a.st)
        list_extend(r, b.st)
        return r
    if t is ast.Mult and isinstance(a, ListRef) and is_num(b):
        if isinstance(b, int):
            r = ListRef()
            for _ in range(b):
                list_extend(r, a.st)
            return r
        r = ListRef()
        r.put((('rep', a.st, term(b)),))
        return r
    if t is ast.Add and isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if t is ast.Mult and isinstance(a, tuple) and isinstance(b, int):
        return a * b
    if t is ast.BitOr and isinstance(a, MapRef) and isinstance(b, MapRef):
        r = MapRef(layers=a.st)
        map_update(r, b)
        return r
    if t is ast.Mod and isinstance(a, str):
        return SStr([a, '%', sname('fmt')]).norm()
    if a is None or b is None:
        raise PyExc(TypeError)
    if t is ast.Mult and isinstance(a, str) and isinstance(b, int):
        return a * b
    if t is not ast.Mult and ((is_num(a) and is_name(b)) or (is_name(a) and is_num(b))):
        raise PyExc(TypeError)
    raise Unsupported(f'operator {t.__name__} on {type(a).__name__}, {type(b).__name__}')


def series_op(t, a, b):
    f = S_OPS[t]
    if isinstance(a, SeriesRef):
        n, fa = a.st
    else:
        n, fa = b.st[0], None
    if isinstance(a, SeriesRef) and isinstance(b, ArrRef):
        (m,), fb = b.st
        if not cur().fork(dim_t(n) == dim_t(m)):
            raise PyExc(ValueError)
        return SeriesRef((n, lambda i: f(fa(i), fb((i,)))))
    if isinstance(a, SeriesRef) and isinstance(b, SeriesRef):
        if a is not b:
            raise Unsupported('arithmetic of two Series (they are matched by their labels)')
        return SeriesRef((n, lambda i: f(fa(i), fa(i))))
    if isinstance(a, SeriesRef):
        return SeriesRef((n, lambda i: f(fa(i), b)))
    fb = b.st[1]
    return SeriesRef((n, lambda i: f(a, fb(i))))


def map_update(m, other):
    ks = concrete_keys(other) if all(L[0] in ('set', 'del', 'copy') for L in other.st) else None
    if ks is not None:
        for k in ks:
            map_set(m, k, map_get(other, k))
    else:
        m.put((*m.st, ('copy', other.st, False, cur().fresh_id())))


# ----------------------------------------------------------------------------------------------------------- comparisons
CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}


def compare(op, a, b):
    check_poison(a, b)
    a, b = num(a), num(b)
    t = type(op)
    if t is ast.Is:
        return is_same(a, b)
    if t is ast.IsNot:
        return lnot(is_same(a, b))
    if t is ast.In:
        return contains(b, a)
    if t is ast.NotIn:
        return lnot(contains(b, a))
    o = CMP[t]
    if is_arrayish(a) or is_arrayish(b):
        if o in ('==', '!=') and not (is_arrayish(a) and is_arrayish(b)) and not (is_num(a) or is_num(b)):
            raise Unsupported('array compared with a non-number')
        return elementwise(s_cmp(o), a, b, dtype='bool')
    if isinstance(a, SeriesRef) or isinstance(b, SeriesRef):
        raise Unsupported('comparison of series')
    if isinstance(a, TD) and isinstance(b, TD):
        return s_cmp(o)(a.s, b.s)
    if isinstance(a, TD) or isinstance(b, TD):
        if o == '==':
            return False
        if o == '!=':
            return True
        raise PyExc(TypeError)
    if isinstance(a, TypeV) or isinstance(b, TypeV):
        r = type_eq(a, b)
        return r if o == '==' else lnot(r)
    if is_num(a) and is_num(b):
        return s_cmp(o)(a, b)
    if o in ('==', '!='):
        r = value_eq(a, b)
        return r if o == '==' else lnot(r)
    if a is None or b is None or is_name(a) != is_name(b):
        raise PyExc(TypeError)
    raise Unsupported(f'comparison {o} of {type(a).__name__} and {type(b).__name__}')


def value_eq(a, b):
    if a is None or b is None:
        return a is b
    if is_name(a) and is_name(b):
        e = key_eq(a, b)
        return e if isinstance(e, bool) else wrap(e)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not truth(compare(ast.Eq(), x, y)):
                return False
        return True
    if isinstance(a, Ref) and isinstance(b, Ref) and a is b:
        return True
    if isinstance(a, ListRef) and isinstance(b, ListRef):
        x, y = list_items(a), list_items(b)
        if x is not None and y is not None:
            return value_eq(tuple(x), tuple(y))
        raise Unsupported('comparison of symbolic lists')
    if isinstance(a, MapRef) and isinstance(b, MapRef):
        raise Unsupported('comparison of dictionaries')
    if isinstance(a, Ref) or isinstance(b, Ref):
        for x in (a, b):
            if isinstance(x, ObjRef) and x.cls.lookup('__eq__') is not None:
                raise Unsupported('equality defined by a class')
        return False
    if is_name(a) != is_name(b):
        return False
    return a == b


class TypeV:
    """A python type: a name for builtin and library types, a set of names while undecided"""

    def __init__(self, names, of=None):
        self.names, self.of = names, of

    def __repr__(self):
        return f'type{self.names}'


def type_of(v):
    check_poison(v)
    if isinstance(v, bool):
        return TypeV(('bool',))
    if isinstance(v, int):
        return TypeV(('int',))
    if isinstance(v, (Fraction, float)):
        return TypeV(('float',))
    if isinstance(v, (str, SStr)):
        return TypeV(('str',))
    if isinstance(v, Sym):
        ch = cur().extra.get(('ty', v.t.get_id()))
        return TypeV((ch,) if ch else v.ty, v)
    if isinstance(v, TD):
        return TypeV(('Timedelta',) if v.pandas else ('timedelta',))
    if v is None:
        return TypeV(('NoneType',))
    if isinstance(v, tuple):
        return TypeV(('tuple',))
    if isinstance(v, MapRef):
        return TypeV(('dict',))
    if isinstance(v, SetRef):
        return TypeV(('set',))
    if isinstance(v, ListRef):
        return TypeV(('list',))
    if isinstance(v, ArrRef):
        return TypeV(('ndarray',))
    if isinstance(v, FrameRef):
        return TypeV(('DataFrame',))
    if isinstance(v, SeriesRef):
        return TypeV(('Series',))
    if isinstance(v, ObjRef):
        return v.cls
    raise Unsupported(f'type of {v!r}')


def decide_type(t, wanted):
    """does type t belong to the set of names `wanted`? (forks over the possible types of a symbolic value)"""
    opts = t.names
    if len(opts) > 1 and any(o in wanted for o in opts) and not all(o in wanted for o in opts):
        i = cur().choose(len(opts), 'type')
        ch = opts[i]
        if t.of is not None:
            cur().extra[('ty', t.of.t.get_id())] = ch
        opts = (ch,)
    return opts[0] in wanted


def type_eq(a, b):
    if isinstance(a, TypeV) and isinstance(b, TypeV):
        if len(a.names) == 1:
            a, b = b, a
        if len(b.names) != 1:
            raise Unsupported('comparison of undecided types')
        return decide_type(a, b.names)
    return a is b


def is_same(a, b):
    if isinstance(a, TypeV) or isinstance(b, TypeV):
        return type_eq(a, b)
    if a is None or b is None:
        return a is b
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, Sym) and isinstance(b, bool):
        return wrap(a.t) if b else lnot(a)
    if isinstance(a, (Sym, int, Fraction)) and isinstance(b, (Sym, int, Fraction)):
        raise Unsupported('identity of numbers')
    return a is b


def contains(c, x):
    if isinstance(c, MapRef):
        return map_get(c, x) is not ABSENT
    if isinstance(c, KeysView):
        return map_get(c.m, x) is not ABSENT
    if isinstance(c, ListRef):
        items = list_items(c)
        if items is not None:
            return seq_contains(items, x)
        return segs_member(c.st, x)
    if isinstance(c, tuple):
        return seq_contains(list(c), x)
    if isinstance(c, SColl):
        return c.member(x)
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if hasattr(c, 'pyvc_contains'):
        return c.pyvc_contains(x)
    raise Unsupported(f'membership in {type(c).__name__}')


def seq_contains(items, x):
    if isinstance(x, TypeV):
        names = set()
        others = []
        for i in items:
            if isinstance(i, TypeV):
                names.update(i.names)
            else:
                others.append(i)
        return decide_type(x, names)
    for i in items:
        if truth(compare(ast.Eq(), i, x)):
            return True
    return False


class KeysView:
    """dict.keys() / inspect.signature(...).parameters.keys()"""

    def __init__(self, m):
        self.m = m


class ItemsView:
    def __init__(self, m):
        self.m = m


class ValuesView:
    def __init__(self, m):
        self.m = m
