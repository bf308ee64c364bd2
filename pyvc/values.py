"""Value domain of the symbolic interpreter."""

from __future__ import annotations

from fractions import Fraction

import z3

from .core import C, CrossKey, Infeasible, Unsupported, cur, visible

# ---------------------------------------------------------------------------------------------------------------- terms
INF = z3.Real('INF')
_codes = {}


def code(s: str):
    """Concrete strings are distinct integers."""
    if s not in _codes:
        _codes[s] = z3.IntVal(len(_codes) + 1000003)
    return _codes[s]


class PyExc(Exception):
    """An exception of the interpreted program."""

    def __init__(self, cls, args=()):
        self.cls, self.vals = cls, args
        super().__init__(f'{getattr(cls, "name", getattr(cls, "__name__", cls))}')


class Sym:
    """A symbolic scalar: z3 term plus the python types it may have."""

    __slots__ = ('t', 'ty')

    def __init__(self, t, ty):
        self.t, self.ty = t, ty

    def __repr__(self):
        return f'<{self.t}>'


class BSym(Sym):
    """A zero dimensional value standing for one value per sample (result of an equation that returned a single value)."""

    __slots__ = ('el',)

    def __init__(self, t, ty, el):
        super().__init__(t, ty)
        self.el = el


T_FLOAT, T_INT, T_BOOL, T_STR, T_NUM = ('float',), ('int',), ('bool',), ('str',), ('int', 'float')


def fresh(prefix, sort):
    return z3.Const(f'{prefix}!{cur().fresh_id()}', sort)


def sreal(prefix, ty=T_FLOAT):
    return Sym(fresh(prefix, z3.RealSort()), ty)


def sint(prefix):
    return Sym(fresh(prefix, z3.IntSort()), T_INT)


def sbool(prefix):
    return Sym(fresh(prefix, z3.BoolSort()), T_BOOL)


def sname(prefix):
    return Sym(fresh(prefix, z3.IntSort()), T_STR)


def is_num(v):
    return isinstance(v, (int, Fraction)) or (isinstance(v, Sym) and v.ty[0] in ('int', 'float', 'bool', 'np.float64'))


def is_name(v):
    return isinstance(v, (str, SStr)) or (isinstance(v, Sym) and v.ty == T_STR)


def term(v):
    """z3 term of a scalar"""
    if isinstance(v, Sym):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(f'{v.numerator}/{v.denominator}')
    if isinstance(v, float):
        if v == float('inf'):
            return INF
        if v == float('-inf'):
            return -INF
        return term(Fraction(repr(v)))
    if isinstance(v, str):
        return code(v)
    if isinstance(v, (z3.ExprRef,)):
        return v
    raise Unsupported(f'no term for {v!r}')


def rterm(v):
    """Real term of a number"""
    t = term(v)
    if z3.is_bool(t):
        t = z3.If(t, z3.RealVal(1), z3.RealVal(0))
    return z3.ToReal(t) if z3.is_int(t) else t


def wrap(t, ty=None):
    """python value of a z3 term, concrete when the term is a literal"""
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    if z3.is_int_value(t) and ty != T_STR:
        return t.as_long() if not ty or ty[0] == 'int' else Fraction(t.as_long())
    if z3.is_rational_value(t):
        f = Fraction(t.numerator_as_long(), t.denominator_as_long())
        return f
    if ty is None:
        ty = T_BOOL if z3.is_bool(t) else (T_INT if z3.is_int(t) else T_FLOAT)
    return Sym(t, ty)


def truth(v) -> bool:
    """Python truth value, forking when symbolic."""
    if isinstance(v, bool):
        return v
    if v is None:
        return False
    if isinstance(v, (int, Fraction)):
        return v != 0
    if isinstance(v, str):
        return v != ''
    if isinstance(v, float):
        return bool(v)
    if isinstance(v, SStr):
        return True
    if isinstance(v, Sym):
        if z3.is_bool(v.t):
            return cur().fork(v.t)
        if v.ty == T_STR:
            return cur().fork(v.t != code(''))
        return cur().fork(v.t != 0)
    if isinstance(v, TD):
        return truth(ne(v.s, 0))
    if isinstance(v, tuple):
        return len(v) > 0
    if isinstance(v, MapRef):
        return map_nonempty(v)
    if isinstance(v, ListRef):
        return list_nonempty(v)
    if isinstance(v, ArrRef):
        if all(isinstance(d, int) and d == 1 for d in v.shape):
            return truth(v.at(tuple(0 for _ in v.shape)))
        raise Unsupported('truth value of an array')
    if isinstance(v, (FrameRef,)):
        raise PyExc(ValueError)
    if isinstance(v, ObjRef) and any(v.cls.lookup(x) is not None for x in ('__bool__', '__len__')):
        raise Unsupported('truth value defined by a class')
    return True


def ne(a, b):
    return lnot(num_eq(a, b))


def lnot(b):
    return (not b) if isinstance(b, bool) else wrap(z3.Not(b.t if isinstance(b, Sym) else b))


def num_eq(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return a == b
    ta, tb = term(a), term(b)
    if z3.is_bool(ta) and not z3.is_bool(tb) or z3.is_bool(tb) and not z3.is_bool(ta) or ta.sort() != tb.sort():
        ta, tb = rterm(a), rterm(b)
    return wrap(ta == tb)


class SStr:
    """A string with symbolic parts: literal, name, literal ..."""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SStr):
                ps = p.parts
            else:
                ps = [p]
            for q in ps:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif isinstance(q, str) and q == '':
                    continue
                else:
                    out.append(q)
        self.parts = out

    def norm(self):
        if not self.parts:
            return ''
        if len(self.parts) == 1:
            return self.parts[0]
        return self

    def skeleton(self):
        return tuple(p if isinstance(p, str) else None for p in self.parts)

    def holes(self):
        return [p for p in self.parts if not isinstance(p, str)]

    def __repr__(self):
        return f'SStr{self.parts}'


class TD:
    """timedelta as real seconds (microsecond rounding not modelled)"""

    __slots__ = ('s', 'pandas')

    def __init__(self, s, pandas=False):
        self.s, self.pandas = s, pandas

    def __repr__(self):
        return f'TD({self.s})'


class Poison:
    def __init__(self, why):
        self.why = why


# ---------------------------------------------------------------------------------------------------------------- heap
class Ref:
    """A mutable object: its state lives in the heap of the current path."""

    def __init__(self, init, label=None):
        run = cur()
        self.oid = run.fresh_id()
        self.init = init
        self.label = label  # not None: part of the inputs of the contract
        self.region = run.region  # the input of the contract it is part of, None when the program made it
        self.mat = run.mat  # maps and loops that brought the object into being
        self.origin = run.origin  # the collections (maps, loops) and keys this object belongs to

    @property
    def st(self):
        return cur().heap.get(self.oid, self.init)

    def put(self, state):
        run = cur()
        if run.region is None and (self.region is not None or self.oid < 0):
            what = written(self, state)
            if what is not None:
                run.writes.append((self, what))
        run.touched[self.oid] = self
        run.heap[self.oid] = state
        if self.oid > run.top:
            run.record(self.oid, state)

    def settle(self):
        """the object is complete only now"""
        run = cur()
        self.init = run.heap.pop(self.oid, self.init)
        run.hist.pop(self.oid, None)

    def __repr__(self):
        return f'{type(self).__name__}#{self.oid}{":" + self.label if self.label else ""}'


class Changed(tuple):
    """the attributes an assignment changes; new: those the object did not have"""

    new = ()


def left_behind(writes):
    """what a call leaves for later calls to see, other than in the objects it is there to change: new attributes of objects
    handed in, changes of models, of environments, of steps and of anything at module level"""
    out = set()
    for ref, what in writes:
        name = ref.cls.name if isinstance(ref, ObjRef) else type(ref).__name__
        if ref.oid < 0:
            out.add(f'module level {name}')
        elif isinstance(ref, ObjRef) and ref.cls.lookup('__next__') and all(a.startswith('_') for a in what):
            pass  # the position of an iteration
        elif getattr(what, 'new', ()):
            out.add(f'{name}.{what.new[0]}')
        elif ref.region in ('device', 'environment') or (ref.region == 'test' and isinstance(ref, ObjRef) and ref.cls.name != 'TestSpec'):
            out.add(f'{name} {what}')
    return sorted(out)


def written(ref, state):
    """what an assignment changes, None when nothing"""
    if isinstance(ref, ObjRef):
        old = ref.st
        ch = Changed(sorted(str(a) for a in {*old, *state} if not unchanged(old.get(a, ABSENT), state.get(a, ABSENT))))
        ch.new = tuple(a for a in ch if a not in old)
        return ch or None
    return None if state is ref.st or state == ref.st else (type(ref).__name__,)


def unchanged(a, b):
    if isinstance(a, Sym) and isinstance(b, Sym):
        return z3.eq(a.t, b.t)
    return a is b or (type(a) is type(b) and isinstance(a, (str, int, Fraction)) and a == b)


class ObjRef(Ref):
    def __init__(self, cls, attrs=None, label=None):
        super().__init__(dict(attrs or {}), label)
        self.cls = cls


class ListRef(Ref):
    """state: tuple of segments ('items', tuple) | ('coll', SColl) | ('loop', LoopLayer, oid) | ('acc', id) | ('rep', segs, n)"""

    def __init__(self, items=(), label=None, segs=None):
        super().__init__(tuple(segs) if segs is not None else ((('items', tuple(items)),) if items else ()), label)

    kind = 'list'


class SetRef(ListRef):
    kind = 'set'


class MapRef(Ref):
    """state: tuple of layers ('set', key, value) | ('del', key) | ('base', MapBase) | ('loop', LoopLayer, oid) |
    ('copy', layers, deep) | ('only', key)   (inside a loop iteration: other keys are unknown)"""

    def __init__(self, items=(), label=None, layers=None):
        super().__init__(tuple(layers) if layers is not None else tuple(('set', k, v) for k, v in items), label)


class ArrRef(Ref):
    """state: (shape, fn, base): fn maps an index tuple to a scalar"""

    def __init__(self, shape, fn, label=None, dtype='float', base=None):
        memo = {}

        def at(idx):
            k = tuple(i if isinstance(i, int) else i.get_id() for i in idx)
            if k not in memo:
                memo[k] = (fn(idx), idx)
            return memo[k][0]

        super().__init__((tuple(shape), fn), label)
        self.dtype = dtype
        self.base = base

    @property
    def shape(self):
        return self.st[0]

    def at(self, idx):
        sh, fn = self.st
        if len(idx) != len(sh):
            raise Unsupported('index arity')
        return fn(tuple(idx))


class FrameRef(Ref):
    """pandas DataFrame; state: tuple of blocks (n rows, {column: row -> value}) | ('acc', id) | ('loop', LoopLayer, oid)
    | ('base', tag)"""


class SeriesRef(Ref):
    """pandas Series; state: (n, row -> value)"""


# ------------------------------------------------------------------------------------------------------- symbolic collections
def tid(v):
    """identity of a scalar for memoization"""
    if isinstance(v, Sym):
        return ('t', v.t.get_id())
    if isinstance(v, z3.ExprRef):
        return ('t', v.get_id())
    if isinstance(v, SStr):
        return ('s', tuple(tid(p) for p in v.parts))
    if isinstance(v, tuple):
        return ('u', tuple(tid(x) for x in v))
    if isinstance(v, Ref):
        return ('r', v.oid)
    return ('c', type(v).__name__, v)


class SColl:
    """An unbounded collection, elements identified by a key (a name or a position)."""

    def __init__(self, id, member, sort='name', elem=None, length=None, dup=False, nonempty=None):
        self.id, self._member, self.sort, self.length, self.dup = id, member, sort, length, dup
        self.elem = elem or (lambda k: k)
        self.identity = elem is None
        self._nonempty = nonempty
        self.loop = None  # the loop that built the collection

    def member(self, k) -> bool:
        """decide membership (forking)"""
        r = self._member(k)
        r = truth(r) if not isinstance(r, bool) else r
        if r:
            known(self.id, k)
        return r

    def fresh(self, prefix='k'):
        k = sname(prefix) if self.sort == 'name' else sint(prefix)
        if not self.member(k):
            raise Infeasible
        return k

    def nonempty(self):
        if self._nonempty is not None:
            return truth(self._nonempty)
        if self.loop is not None:
            return self.loop.coll.nonempty()
        key = ('nonempty', self.id)
        ex = cur().extra
        if key not in ex:
            b = z3.Bool(f'nonempty!{self.id}')
            if cur().fork(b):
                k = self.fresh('some')
                ex[key] = True
            else:
                add_forall(self.id, lambda k: z3.BoolVal(False))
                ex[key] = False
        return ex[key]


def known(cid, k):
    """k is an element of collection cid: instantiate the facts about all its elements"""
    ex = cur().extra
    cid = cur().roots.get(cid, cid)
    lst = ex.get(('known', cid), ())
    if any(tid(k) == tid(x) for x in lst):
        return
    ex[('known', cid)] = (*lst, k)
    for f in ex.get(('forall', cid), ()):
        inst(f, k)


def inst(f, k):
    r = f(k)
    if r is None or r is True:
        return
    cur().fact(r.t if isinstance(r, Sym) else r)


def add_forall(cid, f):
    ex = cur().extra
    cid = cur().roots.get(cid, cid)
    if cid in cur().parts and ('part', cid) not in ex:
        # a selection from another collection: each known element of that one may be in it
        ex[('part', cid)] = True
        coll, whole = cur().parts[cid]
        add_forall(whole, lambda k: coll.member(k) and None)
        ex = cur().extra
    ex[('forall', cid)] = (*ex.get(('forall', cid), ()), f)
    for k in ex.get(('known', cid), ()):
        inst(f, k)


class MapBase:
    """The symbolic part of a map: has(k) and get(k) for every key, keys iterable as a collection"""

    def __init__(self, coll, get, label=None):
        self.coll, self._get, self.label = coll, get, label
        self.region = cur().region
        self.uid = cur().fresh_id()
        self.mat, self.origin = cur().mat, cur().origin
        cur().owner[self.uid] = self.origin
        self.point = cur().bump()

    def has(self, k):
        return self.coll.member(k)

    def get(self, k):
        ex = cur().extra
        lst = ex.get(('mapbase', self.uid), ())
        for kk, v in lst:
            if tid(kk) == tid(k):
                return v
        for kk, v in lst:
            if key_eq_decide(kk, k):
                return v
        run = cur()
        old, run.origin = run.origin, (*self.origin, (self.uid, k))
        region, run.region = run.region, self.region
        mat, run.mat = run.mat, self.mat | {self.uid}
        touched, run.touched = run.touched, dict(run.touched)  # what comes into view is not changed by whoever looks at it
        try:
            v, pending = run.at_point(self.point, lambda: self._get(k))
            run.origin, run.mat, run.region = old, mat, region
            lst = ex.get(('mapbase', self.uid), ())
            ex[('mapbase', self.uid)] = (*lst, (k, v))
            for p in pending:
                materialized(*p)
            materialized(k, self.point, self.uid)
        finally:
            run.origin = old
            run.mat = mat
            run.region = region
            run.touched = touched
        return v


def materialized(k, since, uid):
    """objects belonging to key k of map (or loop) uid came into view: loops that ran since then have changed them"""
    run = cur()
    ex = run.extra
    done, last = set(), None
    while True:
        L = next((L for L in ex.get('layers', ()) if L.uid not in done and L.key > since and uid in L.owns), None)
        if L is None:
            return
        if last is not None and L.key < last:
            raise Unsupported('an earlier loop came into view late')
        last = L.key
        done.add(L.uid)
        if L.sort != ('name' if is_name(k) else 'int'):
            continue
        if not visible(L.key, run.now):
            ex['pending'] = (*ex.get('pending', ()), (k, since, uid))
            return
        if L.coll.member(k):
            L.apply(k)


def in_view(snap, fn):
    """evaluate fn as of an earlier point"""
    r, _, _, pending = cur().in_heap(snap, fn)
    for p in pending:
        materialized(*p)
    return r


_EQ = {}


def key_eq(a, b):
    """equality of dictionary keys: bool or z3 Bool"""
    if isinstance(a, Sym) and isinstance(b, (Sym, str)) and (a.ty == T_STR):
        if isinstance(b, Sym):
            if b.ty != T_STR:
                return False
            tb = b.t
        else:
            tb = code(b)
        ia, ib = a.t.get_id(), tb.get_id()
        if ia == ib:
            return True
        r = _EQ.get((ia, ib))
        if r is None:
            t = z3.simplify(a.t == tb)
            r = _EQ[(ia, ib)] = (True if z3.is_true(t) else (False if z3.is_false(t) else t), a.t, tb)
        return r[0]
    if tid(a) == tid(b):
        return True
    if a is None or b is None:
        return a is b
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b)):
            return False
        cs = [key_eq(x, y) for x, y in zip(a, b)]
        if any(c is False for c in cs):
            return False
        cs = [c for c in cs if c is not True]
        return z3.And(*cs) if cs else True
    if isinstance(a, SStr) or isinstance(b, SStr):
        if isinstance(a, SStr) and isinstance(b, SStr):
            if a.skeleton() != b.skeleton():
                return False
            cs = [key_eq(x, y) for x, y in zip(a.holes(), b.holes())]
            if any(c is False for c in cs):
                return False
            cs = [c for c in cs if c is not True]
            return z3.And(*cs) if cs else True
        return False
    if isinstance(a, Ref) or isinstance(b, Ref):
        return False
    sa, sb = is_name(a), is_name(b)
    if sa != sb:
        return False
    ca, cb = not isinstance(a, Sym), not isinstance(b, Sym)
    if ca and cb:
        return a == b
    t = term(a) == term(b) if term(a).sort() == term(b).sort() else rterm(a) == rterm(b)
    t = z3.simplify(t)
    return True if z3.is_true(t) else (False if z3.is_false(t) else t)


def key_eq_decide(a, b) -> bool:
    e = key_eq(a, b)
    return e if isinstance(e, bool) else cur().fork(e)


# ------------------------------------------------------------------------------------------------------------------- maps
ABSENT = object()


def map_get(m: MapRef, k, layers=None):
    """value for key k or ABSENT"""
    layers = m.st if layers is None else layers
    for i in range(len(layers) - 1, -1, -1):
        L = layers[i]
        if L[0] == 'set':
            if key_eq_decide(L[1], k):
                return L[2]
        elif L[0] == 'del':
            if key_eq_decide(L[1], k):
                return ABSENT
        elif L[0] == 'base':
            if L[1].has(k):
                return L[1].get(k)
        elif L[0] == 'only':
            if not key_eq_decide(L[1], k):
                raise CrossKey('an iteration reads an entry written by another iteration', L[2], L[3])
        elif L[0] == 'loop':
            v = L[1].map_value(L[2], k)
            if v is not ABSENT:
                return v
        elif L[0] == 'copy':
            v = map_get(None, k, L[1])
            if isinstance(v, Ref) and L[2]:
                ex = cur().extra
                key = ('deepcopy', L[3], tid(v))
                if key not in ex:
                    ex[key] = in_view(L[4], lambda: deepcopy(v))
                return ex[key]
            if v is not ABSENT:
                return v
        elif L[0] == 'clear':
            return ABSENT
        else:
            raise Unsupported(f'map layer {L[0]}')
    return ABSENT


def map_set(m: MapRef, k, v):
    m.put((*m.st, ('set', k, v)))


def map_del(m: MapRef, k):
    m.put((*m.st, ('del', k)))


def concrete_keys(m, layers=None):
    """ordered concrete keys, or None when the map has symbolic parts"""
    layers = m.st if layers is None else layers
    keys = []
    for L in layers:
        if L[0] == 'set':
            if not any(key_eq_decide(k, L[1]) for k in keys):
                keys.append(L[1])
        elif L[0] == 'del':
            keys = [k for k in keys if not key_eq_decide(k, L[1])]
        elif L[0] == 'copy':
            sub = concrete_keys(None, L[1])
            if sub is None:
                return None
            for k in sub:
                if not any(key_eq_decide(kk, k) for kk in keys):
                    keys.append(k)
        else:
            return None
    return keys


def map_coll(m) -> SColl:
    """the keys of a map as a collection, for the map's current state"""
    layers = m.st
    if len(layers) == 1 and layers[0][0] == 'base':
        return layers[0][1].coll
    if len(layers) == 1 and layers[0][0] == 'copy' and len(layers[0][1]) == 1 and layers[0][1][0][0] == 'base':
        return layers[0][1][0][1].coll
    heap = dict(cur().heap)

    def member(k):
        return map_get(None, k, layers) is not ABSENT

    return SColl(f'keys{m.oid}.{state_id(m.oid, layers)}', member)


def state_id(oid, st):
    """a number for this state of an object"""
    ex = cur().extra
    key = ('state', oid, *[id(x) for x in st])
    if key not in ex:
        ex[key] = (cur().fresh_id(), st)  # keeps the state, so the identities stay taken
    return ex[key][0]


class MonoMap:
    """a dictionary of counts about which only lower bounds are known (see the monotone rule in loops.py)"""

    def __init__(self, entry, floor=None, fixed=False, bounds=lambda q: (), inv=None):
        run = cur()
        self.uid = run.fresh_id()
        self.entry, self.floor, self.fixed, self.bounds, self.inv = entry, floor, fixed, bounds, inv
        self.h = z3.Function(f'has!{self.uid}', z3.IntSort(), z3.BoolSort())
        self.v = z3.Function(f'val!{self.uid}', z3.IntSort(), z3.IntSort())
        self.coll = SColl(f'mono{self.uid}', self.member)

    def touched(self):
        return cur().extra.get(('mono', self.uid), ())

    def touch(self, q):
        if any(tid(q) == tid(x) for x in self.touched()):
            return
        cur().extra[('mono', self.uid)] = (*self.touched(), q)
        cur().inexact = cur().inexact or 'only bounds of the counts are known'
        if self.floor is not None:
            cur().fact(z3.Implies(self.h(term(q)), self.v(term(q)) >= self.floor))
        if self.inv is not None:
            cur().fact(z3.Implies(self.h(term(q)), self.inv(q, self.v(term(q)))))
        for b in (self.entry, *self.bounds(q)):
            self.bound(q, b)

    def bound(self, q, layers):
        v = map_get(None, q, layers)
        if v is ABSENT:
            return
        c, w = count_term(v), self.v(term(q))
        cur().fact(z3.And(self.h(term(q)), w == c if self.fixed else w >= c))

    def member(self, q):
        if not is_name(q) or isinstance(q, SStr):
            raise Unsupported('key of a dictionary of counts')
        self.touch(q)
        return wrap(self.h(term(q)))

    def has(self, q):
        return self.coll.member(q)

    def get(self, q):
        self.touch(q)
        return Sym(self.v(term(q)), T_INT)


def count_term(v):
    if isinstance(v, bool) or not (isinstance(v, int) or isinstance(v, Sym) and v.ty == T_INT):
        raise Unsupported('a dictionary entry that is not a count')
    return z3.IntVal(v) if isinstance(v, int) else v.t


def map_nonempty(m):
    ks = concrete_keys(m) if all(L[0] in ('set', 'del', 'copy') for L in m.st) else None
    if ks is not None:
        return len(ks) > 0
    if any(L[0] == 'set' for L in m.st) and not any(L[0] in ('del', 'clear') for L in m.st):
        return True
    return map_coll(m).nonempty()


# ------------------------------------------------------------------------------------------------------------------ lists
def list_items(l):
    """python list of the elements, or None when symbolic"""
    out = []
    for s in l.st:
        if s[0] == 'items':
            out.extend(s[1])
        else:
            return None
    if l.kind == 'set':
        uniq = []
        for x in out:
            if not any(x is y or (is_scalarish(x) and is_scalarish(y) and key_eq_decide(x, y)) for y in uniq):
                uniq.append(x)
        return uniq
    return out


def list_append(l, v):
    segs = l.st
    if segs and segs[-1][0] == 'items':
        l.put((*segs[:-1], ('items', (*segs[-1][1], v))))
    else:
        l.put((*segs, ('items', (v,))))


def list_extend(l, segs):
    new = list(l.st)
    for s in segs:
        if s[0] == 'items' and new and new[-1][0] == 'items':
            new[-1] = ('items', (*new[-1][1], *s[1]))
        elif s[0] == 'items' and not s[1]:
            continue
        else:
            new.append(s)
    l.put(tuple(new))


def list_nonempty(l):
    any_sym = False
    for s in l.st:
        if s[0] == 'items' and s[1]:
            return True
        if s[0] != 'items':
            any_sym = True
    if not any_sym:
        return False
    return list_coll(l).nonempty()


def segs_member(segs, v) -> bool:
    for s in segs:
        if s[0] == 'items':
            for x in s[1]:
                if isinstance(x, Ref) or isinstance(v, Ref):
                    if x is v:
                        return True
                    continue
                if not is_scalarish(x) or not is_scalarish(v):
                    if x is v:
                        return True
                    continue
                if key_eq_decide(x, v):
                    return True
        elif s[0] == 'coll':
            if s[1].identity:
                if s[1].member(v):
                    return True
            elif some_elem(s[1], v):
                return True
        elif s[0] == 'loop':
            if s[1].list_member(s[2], v):
                return True
        else:
            raise Unsupported(f'membership in list segment {s[0]}')
    return False


def some_elem(coll, v) -> bool:
    """is some element of the collection equal to v?  (a witness, or a fact about all of them)"""
    if not is_scalarish(v):
        raise Unsupported('membership in a list of structured values')
    ex = cur().extra
    key = ('elem', coll.id, tid(v))
    if key in ex:
        return ex[key]

    def equal(k):
        e = coll.elem(k)
        if not is_scalarish(e):
            raise Unsupported('membership in a list of structured values')
        return key_eq_decide(e, v)

    if cur().fork(z3.Bool(f'elem!{coll.id}.{cur().fresh_id()}')):
        if not equal(coll.fresh('wit')):
            raise Infeasible
        res = True
    else:
        def none(k):
            if equal(k):
                raise Infeasible

        add_forall(coll.id, none)
        res = False
    cur().extra[key] = res
    return res


def is_scalarish(v):
    return v is None or isinstance(v, (str, int, Fraction, Sym, SStr, tuple))


def list_coll(l) -> SColl:
    segs = l.st
    if len(segs) == 1 and segs[0][0] == 'coll' and (segs[0][1].identity or l.kind != 'set'):
        return segs[0][1]
    cid = f'list{l.oid}.{state_id(l.oid, segs)}'
    loop = segs[0][1] if len(segs) == 1 and segs[0][0] == 'loop' else None
    once = loop is not None and segs[0][2] in loop.once  # a selection of distinct elements
    c = SColl(cid, lambda k: segs_member(segs, k), dup=(l.kind != 'set' and not once))
    cur().parts.pop(cid, None)
    if once:
        cur().parts[cid] = c, loop.coll.id
    return c


def position(coll, k):
    """the (unique) position of an element in a collection"""
    if coll.sort == 'int':
        return k
    ints = z3.IntSort()
    p = z3.Function(f'pos!{coll.id}', ints, ints)(term(k))
    run = cur()
    run.fact(p >= 0)
    run.fact(z3.Function(f'at!{coll.id}', ints, ints)(p) == term(k))
    if coll.length is not None:
        n = coll.length
        run.fact(p < (n.t if isinstance(n, Sym) else n))
    return wrap(p, T_INT)


# --------------------------------------------------------------------------------------------------------------- deep copy
def deepcopy(v, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, Ref):
        if v.oid in memo:
            return memo[v.oid]
        if isinstance(v, ArrRef):
            r = ArrRef(v.shape, v.st[1], dtype=v.dtype)
        elif isinstance(v, MapRef):
            if all(L[0] == 'set' for L in v.st):
                r = MapRef()
                memo[v.oid] = r
                r.init = tuple(('set', L[1], deepcopy(L[2], memo)) for L in v.st)
            else:
                r = MapRef(layers=(('copy', v.st, True, cur().fresh_id(), cur().snap()),))
        elif isinstance(v, ListRef):
            r = type(v)()
            memo[v.oid] = r
            segs = []
            for s in v.st:
                if s[0] == 'items':
                    segs.append(('items', tuple(deepcopy(x, memo) for x in s[1])))
                elif s[0] == 'coll' and s[1].identity:
                    segs.append(s)
                else:
                    raise Unsupported('deep copy of a symbolic list')
            r.init = tuple(segs)
        elif isinstance(v, ObjRef):
            r = ObjRef(v.cls)
            memo[v.oid] = r
            r.init = {k: deepcopy(x, memo) for k, x in v.st.items()}
        else:
            r = type(v)(v.st)
        memo[v.oid] = r
        return r
    if isinstance(v, tuple):
        return tuple(deepcopy(x, memo) for x in v)
    return v
