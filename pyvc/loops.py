"""Loops over unbounded collections.

A loop whose iterations do not influence each other is summarised by its body: after the loop, the effect of the iteration for
key k is obtained by executing the (real) body for that key on the state before the loop, whenever something depending on k is
looked at.  Independence is not assumed but checked for a generic key: an iteration may only
  * write dictionary entries under its own key (and must not read entries other iterations write),
  * append to lists or concatenate data frames it does not otherwise look at,
  * write array elements of one slice addressed by its own index,
  * change objects that belong to its own key,
  * add to a number it does not otherwise look at.
A dictionary of counts whose entries an iteration may read and write under any key is summarised by the monotone rule, when every
iteration, started from any state at least the one before the loop, only adds entries or raises counts (checked for a generic key and
state): each iteration then started from some state at least the initial one, and the final state is at least what it left behind.
Where entries are only added, never changed, "at least" becomes "the same where it has an entry".
Anything else is Unsupported (the obligation stays undecided).
"""

from __future__ import annotations

import ast

import z3

from . import ops
from .core import CrossKey, Infeasible, Unsupported, cur, visible
from .values import *  # noqa: F403
from .values import ABSENT, T_BOOL, T_FLOAT, T_INT


class OldVal:
    """marker: the array element the iteration has not written"""

    def __init__(self, idx):
        self.idx = idx


class IterResult:
    __slots__ = ('outcome', 'heap', 'vars', 'touched', 'pending')


END = 10**9


class LoopLayer:
    def __init__(self, ip, coll, env, bind, body):
        run = cur()
        self.ip, self.coll, self.env, self.bind, self.body = ip, coll, env, bind, body
        self.snap = run.snap()
        self.key = self.snap.point
        self.heap = self.snap.heap
        self.vars = dict(env.vars)
        self.parent = env.parent.frozen() if env.parent is not None else None
        self.uid = run.fresh_id()
        run.owner[self.uid] = run.origin
        self.sort = coll.sort
        self.maps, self.lists, self.arrays, self.frames, self.nums = {}, {}, {}, {}, {}
        self.mono, self.floor, self.fixed, self.changing = {}, {}, {}, set()
        self.counters = {}
        self.inv = ip.entry_inv
        self.elements, self.once = False, set()
        self.may_raise = False
        self.havoc = None  # as they are when the loop ends
        self.mat, self.origin, self.touch, self.owns = run.mat, run.origin, frozenset(), frozenset()

    # ---- executing the body for one key --------------------------------------------------------------------------------
    def entry(self, k):
        """the heap an iteration starts from: objects that callees may change in any way are in an arbitrary state"""
        heap = cur().start_heap(self.snap)
        for ref, state in (self.ip.havoc if self.havoc is None else self.havoc).values():
            if ref.oid <= self.snap.counter:
                heap[ref.oid] = state(k)
        return heap

    def protected(self, k):
        heap = self.entry(k)
        for oid, m in self.maps.items():
            heap[oid] = (*m, ('only', k, self.uid, oid))
        for oid, m in self.mono.items():
            heap[oid] = (('base', MonoMap(m, self.floor[oid], self.fixed[oid], inv=self.inv)),)
        for oid in self.lists:
            heap[oid] = (('acc', oid),)
        for oid, (shape, fn, ax) in self.arrays.items():
            heap[oid] = (shape, self.old_fn(fn, k, ax))
        vars = dict(self.vars)
        for name, v in self.nums.items():
            vars[name] = v
        for name, (v0, c) in self.counters.items():
            vars[name] = ops.s_add(v0, ops.s_mul(c, position(self.coll, k)))
        for name in self.frames:
            f = FrameRef((('acc', name),))
            heap[f.oid] = f.init
            vars[name] = f
        return heap, vars

    @staticmethod
    def old_fn(fn, k, ax):
        def f(idx):
            if ax is None:
                return OldVal(idx)
            if not key_eq_decide(wrap(ops.dim_t(idx[ax]), T_INT), k):
                raise Unsupported('an iteration reads an array element written by another iteration')
            return fn(idx)

        return f

    def run_body(self, k, heap, vars):
        from .interp import Brk, Cont, Env, Ret

        ip = self.ip
        e = Env(self.parent, self.env.module)
        e.vars = dict(vars)
        run = cur()

        def go():
            old, run.origin = run.origin, (*self.origin, (self.uid, k))
            mat, run.mat = run.mat, self.mat | {self.uid}
            try:
                self.bind(self.coll.elem(k), e)
                ip.exec_block(self.body, e)
                return 'ok'
            except Cont:
                return 'ok'
            except Brk:
                return 'break'
            except Ret as r:
                return ('return', r.v)
            except PyExc as x:
                return ('raise', x)
            finally:
                run.origin, run.mat = old, mat

        r = IterResult()
        outcome, after, touched, r.pending = run.in_heap(self.snap, go, heap)
        r.outcome, r.heap, r.vars, r.touched = outcome, after, e.vars, touched
        return r

    def instances(self, q):
        """keys whose iterations are looked at for facts about entry q of the final state (inside a loop only those seen already)"""
        ex = cur().extra
        if busy():
            return [k for k, _ in ex.get(('layer', self.uid), ())]
        if self.sort == 'name' and self.coll.identity:
            self.coll.member(q)
        return cur().extra.get(('known', self.coll.id), ())

    def busy(self, k):
        return any(B is self and tid(k) == tid(x) for B, x in cur().extra.get('busy', ()))

    def at(self, k):
        """effects of the iteration for key k (k is known to be an element)"""
        run = cur()
        ex = run.extra
        key = ('layer', self.uid)
        for kk, r in ex.get(key, ()):
            if tid(kk) == tid(k):
                return r
        for kk, r in ex.get(key, ()):
            if key_eq_decide(kk, k):
                return r
        if self.busy(k):
            raise Unsupported('an iteration is needed while it is being evaluated')
        ex['busy'] = (*ex.get('busy', ()), (self, k))
        heap, vars = self.protected(k)
        muted, run.muted = run.muted, run.muted + 1
        touched, run.touched = run.touched, dict(run.touched)
        try:
            r = self.run_body(k, heap, vars)
        finally:
            run.muted, run.touched = muted, touched
            ex['busy'] = ex['busy'][:-1]
        if r.outcome != 'ok':
            # on this path no iteration leaves the loop early
            raise Infeasible
        ex[key] = (*ex.get(key, ()), (k, r))
        # objects that belong to this key keep the state the iteration left them in
        for oid in self.changed(r):
            run.hist[oid] = (*run.hist.get(oid, ()), ((*self.key, END), r.heap[oid]))
        self.export(r)
        materialized(k, self.key, self.uid)
        for p in r.pending:
            materialized(*p)
        return r

    def changed(self, r):
        return [oid for oid in r.touched if oid in r.heap and oid not in self.ip.havoc and not (oid in self.maps or oid in self.lists or oid in self.arrays or oid in self.mono)]

    def export(self, r):
        run = cur()
        if visible(self.key, run.now):
            for oid in self.changed(r):
                if oid > run.top:
                    run.heap[oid] = run.as_of(oid, run.now)

    def update(self, k):
        """the loop just ran: its effect on objects already in view is an effect of whoever ran the loop"""
        run = cur()
        r = self.at(k)
        for oid in self.changed(r):
            run.heap[oid] = r.heap[oid]
            run.touched[oid] = r.touched[oid]

    def apply(self, k):
        self.export(self.at(k))

    # ---- reading the summary ----------------------------------------------------------------------------------------
    def map_value(self, oid, q):
        if self.sort == 'name' and not is_name(q) or self.sort == 'int' and is_name(q):
            return ABSENT
        if not self.coll.member(q):
            return ABSENT
        r = self.at(q)
        layers = r.heap.get(oid, ())
        base = len(self.maps[oid]) + 1
        for L in reversed(layers[base:]):
            if L[0] == 'set' and key_eq_decide(L[1], q):
                return L[2]
            if L[0] not in ('set',):
                raise Unsupported('dictionary change in a loop')
        return ABSENT

    def new_segs(self, oid, k):
        r = self.at(k)
        return r.heap.get(oid, (('acc', oid),))[1:]

    def list_member(self, oid, v):
        run = cur()
        key = ('inloop', self.uid, oid, tid(v))
        ex = run.extra
        if key in ex:
            return ex[key]
        if self.lists[oid] == 'self' and is_scalarish(v):
            res = (self.sort == 'name') == bool(is_name(v)) and self.coll.member(v) and segs_member(self.new_segs(oid, v), v)
        else:
            b = z3.Bool(f'inloop!{self.uid}.{oid}.{run.fresh_id()}')
            if run.fork(b):
                k = self.coll.fresh('wit')
                if not segs_member(self.new_segs(oid, k), v):
                    raise Infeasible
                res = True
            else:
                def none(k):
                    if segs_member(self.new_segs(oid, k), v):
                        raise Infeasible

                add_forall(self.coll.id, none)
                res = False
        ex = cur().extra
        ex[key] = res
        return res


# candidate invariants of the monotone rule: (entries once there never change, all counts are at least one)
MODES = ((True, True), (True, False), (False, True), (False, False))


def exec_symbolic_loop(ip, node, coll, env, bind, body):
    mono = {}
    while True:
        L = LoopLayer(ip, coll, env, bind, body)
        try:
            summarise(ip, node, coll, env, bind, body, L, mono)
            L.havoc = dict(ip.havoc)
            return
        except CrossKey as e:
            if e.loop == L.uid and isinstance(e.oid, tuple) and e.oid not in mono:
                mono[e.oid] = 'not a counter'
                continue
            if e.loop != L.uid or mono.get(e.oid) == len(MODES) - 1:
                raise
            mono[e.oid] = mono.get(e.oid, -1) + 1


def summarise(ip, node, coll, env, bind, body, L, mono):
    run = cur()
    run.tick()
    start = run.counter

    # pass 1: what does an iteration change?
    def discover():
        k = coll.fresh('it')
        log, run.touch_log = run.touch_log, frozenset()
        olog, run.own_log = run.own_log, frozenset()
        try:
            r = L.run_body(k, L.entry(k), L.vars)
            touch, inner = run.touch_log, run.own_log
        finally:
            run.touch_log, run.own_log = log, olog
        pre, owners = {}, set()
        for uid in inner:
            own = owner_of([x for x in run.owner.get(uid, ()) if x[0] not in L.mat], k)
            if own is None and uid <= start:
                raise Unsupported('a loop inside the loop changes objects every iteration can see')
            if own is not None and own <= start:
                owners.add(own)
        for oid, ref in r.touched.items():
            if oid in ip.havoc:
                pre[oid] = False
                continue
            own = owner(ref, k, L.mat)
            pre[oid] = oid <= start and own is None
            if pre[oid] and mono.get(oid, 9) < 2 and changes(L, r, ref):
                L.changing.add(oid)
            if own is not None and own <= start:
                owners.add(own)
            if not pre[oid]:
                touch |= ref.mat
                if oid <= start and not ref.mat - L.mat - {L.uid}:
                    raise Unsupported('an iteration changes an object it shares a key with')
        for oid, ref in r.touched.items():
            if not pre[oid] and oid not in ip.havoc and sum(u in owners for u, _ in ref.origin) > 1:
                raise Unsupported('an iteration changes objects that belong to another key as well')
        return k, r, list(run.writes), pre, touch - L.mat - {L.uid}, owners - L.mat - {L.uid}, owners | inner

    run.muted += 1
    try:
        known_havoc = len(ip.havoc)
        paths = run.sub_explore(discover)
        if len(ip.havoc) != known_havoc:
            paths = run.sub_explore(discover)
    finally:
        run.muted -= 1
    if not paths:
        return  # the collection is empty on this path
    writes0 = len(run.writes)
    for k, r, w, _, t, o, i in paths:
        L.touch |= t
        L.owns |= o
        run.own_log |= i
        for x in w[writes0:]:
            if x not in run.writes:
                run.writes.append(x)
    L.elements = bool(L.touch)
    run.touch_log |= L.touch
    modified_vars = set()
    outcomes = [x[1].outcome for x in paths]
    for k, r, _, pres, *_ in paths:
        if r.outcome == 'break' or (isinstance(r.outcome, tuple) and r.outcome[0] == 'return'):
            raise Unsupported('loop over an unbounded collection is left early')
        for oid, ref in r.touched.items():
            if not pres[oid]:
                continue
            if isinstance(ref, MapRef):
                (L.mono if oid in mono else L.maps)[oid] = ref
            elif isinstance(ref, ListRef):
                L.lists[oid] = ref
            elif isinstance(ref, ArrRef):
                L.arrays[oid] = ref
            elif isinstance(ref, ObjRef):
                # attributes whose name contains the loop key form a map; anything else is shared state
                before, after = L.heap.get(oid, ref.init), r.heap[oid]
                fams = [a for a in after if a not in before]
                if fams and all(isinstance(a, tuple) for a in fams) and all(after[a] is before[a] for a in before):
                    ref.put({**before, **{a: MapRef() for a in fams}})
                    return exec_symbolic_loop(ip, node, coll, env, bind, body)
                raise Unsupported(f'every iteration changes the same {ref.cls.name} object')
            else:
                raise Unsupported(f'every iteration changes {ref!r}')
        for name, v in r.vars.items():
            if L.vars.get(name, ABSENT) is not v and not (name in L.vars and same_val(L.vars[name], v)):
                modified_vars.add(name)
    refs = {**L.maps, **L.lists, **L.arrays, **L.mono}
    L.mono = {oid: L.heap.get(oid, ref.init) for oid, ref in L.mono.items()}
    for oid, m in L.mono.items():
        if oid in L.changing:
            mono[oid] = max(mono[oid], 2)
        L.fixed[oid], floor = MODES[mono[oid]]
        L.floor[oid] = 1 if floor and all(run.sub_explore(lambda m=m: positive(m))) else None
        if L.inv is not None and not all(run.sub_explore(lambda m=m: satisfies(m, L.inv))):
            raise Unsupported('the invariant of the entries does not hold before the loop')
    L.maps = {oid: L.heap.get(oid, ref.init) for oid, ref in L.maps.items()}
    lists = dict(L.lists)
    L.lists = {oid: None for oid in L.lists}
    arrs = dict(L.arrays)
    L.arrays = {oid: (*ref.st, None) for oid, ref in L.arrays.items()}
    numvars, framevars = {}, set()
    for name in modified_vars:
        if name in L.vars:
            v = L.vars[name]
            if isinstance(v, FrameRef):
                framevars.add(name)
                L.frames[name] = v
            elif isinstance(v, TD):
                L.nums[name] = TD(Sym(fresh('accum', z3.RealSort()), T_FLOAT), v.pandas)
            elif (c := step_of(L, name, paths, coll, mono)) is not None:
                L.counters[name] = (v, c)
            elif is_num(v) and not isinstance(v, bool):
                L.nums[name] = Sym(fresh('accum', z3.RealSort()), T_FLOAT)
            else:
                L.vars[name] = Poison(f'variable {name} carries a value from one iteration to the next')
        else:
            L.vars[name] = Poison(f'variable {name} may have its value from an earlier iteration')

    # pass 2: the same iteration with everything other iterations may change out of reach
    info = {'list': {}, 'self': {oid: True for oid in L.lists}, 'axis': {oid: set(range(len(st[0]))) for oid, st in L.arrays.items()},
            'nums': {}}

    def check():
        k = coll.fresh('it')
        heap, vars = L.protected(k)
        r = L.run_body(k, heap, vars)
        if isinstance(r.outcome, tuple):
            return r.outcome
        if r.outcome != 'ok':
            raise Unsupported('loop over an unbounded collection is left early')
        for oid, ref in r.touched.items():
            if oid not in refs and oid not in ip.havoc and oid <= start and owner(ref, k, L.mat) is None:
                raise Unsupported('an iteration has an effect that was not foreseen')
        for oid in L.maps:
            layers = r.heap.get(oid, ())
            base = len(L.maps[oid]) + 1
            if layers[:base] != heap[oid]:
                raise Unsupported('dictionary replaced in a loop')
            for lay in layers[base:]:
                if lay[0] != 'set':
                    raise Unsupported(f'dictionary change {lay[0]} in a loop')
                if not (key_eq(lay[1], k) is True or run.valid(as_bool(key_eq(lay[1], k)))):
                    raise CrossKey('an iteration writes a dictionary entry of another key', L.uid, oid)
        for oid in L.mono:
            if oid in r.heap:
                raised(r.heap[oid], heap[oid], L, oid)
        for oid in L.lists:
            segs = r.heap.get(oid, (('acc', oid),))
            if not segs or segs[0] != ('acc', oid) or any(s[0] == 'acc' for s in segs[1:]):
                raise Unsupported('list rebuilt in a loop')
            n = 0
            for s in segs[1:]:
                if s[0] == 'items':
                    n += len(s[1])
                    for x in s[1]:
                        if not (is_scalarish(x) and key_eq(x, k) is True):
                            info['self'][oid] = False
                else:
                    n = None
                    info['self'][oid] = False
                    break
            info['list'].setdefault(oid, set()).add(n)
        for oid, (shape, fn, _) in L.arrays.items():
            after = r.heap.get(oid)
            if after is None or after[1] is heap[oid][1]:
                continue
            for ax in list(info['axis'][oid]):
                bad = run.sub_explore(lambda: probe(after, shape, ax, k))
                if any(bad):
                    info['axis'][oid].discard(ax)
        for name in L.nums:
            a0, a1 = L.nums[name], r.vars[name]
            info['nums'].setdefault(name, []).append(delta(a0, a1))
        for name, (_, c) in L.counters.items():
            a0, a1 = vars[name], r.vars[name]
            if not is_num(a1) or not run.valid(rterm(a1) == rterm(a0) + c):
                raise CrossKey('no counter', L.uid, ('var', name))
        for name in L.frames:
            f = r.vars[name]
            if not isinstance(f, FrameRef):
                raise Unsupported('variable changes type in a loop')
            st = r.heap.get(f.oid, f.init)
            if not st or st[0] != ('acc', name):
                raise Unsupported('data frame rebuilt in a loop')
        return 'ok'

    if L.counters:
        # that they are counters has to be known before anything is concluded from it
        run.muted += 1
        try:
            run.sub_explore(check)
        finally:
            run.muted -= 1
        for key in ('list', 'nums'):
            info[key].clear()
    outs = run.sub_explore(check)
    for oid in L.arrays:
        axes = info['axis'][oid]
        if not axes:
            raise Unsupported('iterations write the same array elements')
        sh, fn, _ = L.arrays[oid]
        L.arrays[oid] = (sh, fn, min(axes))
    for oid in L.lists:
        L.lists[oid] = 'self' if info['self'][oid] and coll.identity else 'any'

    if coll.dup and (L.arrays or L.nums or L.counters or L.frames or L.elements):
        raise Unsupported('loop over a list that may name an element twice')
    raising = [o for o in outs if isinstance(o, tuple)]
    if raising and run.choose(2):
        # some iteration raises: the state the other iterations leave is unknown
        k = coll.fresh('raiser')
        heap, vars = L.protected(k)
        r = L.run_body(k, heap, vars)
        if not isinstance(r.outcome, tuple):
            raise Infeasible
        for ref in refs.values():
            if isinstance(ref, MapRef):
                ref.put((('unknown', 'dictionary partly filled when an exception was raised'),))
            elif isinstance(ref, ListRef):
                ref.put((('unknown', 'list partly filled when an exception was raised'),))
        for name in modified_vars:
            env.vars[name] = Poison(f'{name} after an exception in a loop')
        raise r.outcome[1]
    if not any(o == 'ok' for o in outs):
        # every iteration raises: nothing to do only if the collection is empty
        add_forall(coll.id, lambda k: z3.BoolVal(False))
        return

    # the state after the loop
    for ref, state in ip.havoc.values():
        if ref.oid <= start and any(ref.oid in x[1].touched for x in paths):
            ref.put(state(None))
    for oid, ref in refs.items():
        if oid in L.maps:
            ref.put((*L.maps[oid], ('loop', L, oid)))
        elif oid in L.mono:
            def after(k, oid=oid):
                return L.at(k).heap[oid]

            final = MonoMap(L.mono[oid], L.floor[oid], L.fixed[oid], lambda q, after=after: [after(k) for k in L.instances(q)], L.inv)

            def later(k, final=final, after=after):
                if not busy():
                    for q in final.touched():
                        final.bound(q, after(k))

            ref.put((('base', final),))
            add_forall(coll.id, later)
        elif oid in L.lists:
            st0 = L.heap.get(oid, ref.init)
            counts = info['list'].get(oid, {0})
            if counts == {0}:
                continue
            if counts <= {0, 1} and L.lists[oid] == 'self' and not coll.dup:
                L.once.add(oid)
            if counts == {1} and L.lists[oid] != 'self':
                seg = ('coll', SColl(f'loop{L.uid}.{oid}', coll._member, coll.sort,
                                     lambda k, oid=oid: first_item(L.new_segs(oid, k)), coll.length, coll.dup))
                seg[1].loop = L
                run.roots[seg[1].id] = run.roots.get(coll.id, coll.id)
            elif counts == {1} and coll.identity:
                seg = ('coll', coll)
            else:
                seg = ('loop', L, oid)
            ref.put((*st0, seg))
        else:
            sh, fn, ax = L.arrays[oid]

            def new(idx, oid=oid, fn=fn, ax=ax):
                i = wrap(ops.dim_t(idx[ax]), T_INT)
                if not coll.member(i):
                    return fn(idx)
                r = L.at(i)
                st = r.heap.get(oid)
                return st[1](idx)

            ref.put((sh, new))
    for name in modified_vars:
        if name in framevars:
            v = L.vars[name]
            env.vars[name] = FrameRef((*v.st, ('loop', L, name)))
        elif name in L.counters:
            v0, c = L.counters[name]
            env.vars[name] = ops.s_add(v0, ops.s_mul(c, wrap(ops.dim_t(coll.length), T_INT)))
        elif name in L.nums:
            env.vars[name] = sum_value(L, coll, L.vars[name], name, info['nums'][name])
        else:
            env.vars[name] = Poison(f'variable {name} after a loop over an unbounded collection')
    if L.elements:
        run.extra['layers'] = tuple(sorted((*run.extra.get('layers', ()), L), key=lambda x: x.key))
    # elements already in view are brought up to date
    if L.elements or raising:
        for k in run.extra.get(('known', coll.id), ()):
            L.update(k)
    if L.elements:
        for uid in L.owns:
            for k, _ in (*run.extra.get(('mapbase', uid), ()), *run.extra.get(('layer', uid), ())):
                if L.sort == ('name' if is_name(k) else 'int') and coll.member(k):
                    L.update(k)
    if raising:
        def no_raise(k):
            L.at(k)

        add_forall(coll.id, no_raise)


def changes(L, r, ref):
    """guess: does the iteration change entries that are there already?"""
    base = L.heap.get(ref.oid, ref.init)
    layers = r.heap.get(ref.oid, base)
    new = layers[len(base):]
    if layers[: len(base)] != base or any(x[0] != 'set' for x in new):
        return True
    try:
        return any(map_get(None, x[1], base) is not ABSENT for x in new)
    except CrossKey:
        return True


def busy():
    return cur().depth > 0 or bool(cur().extra.get('busy'))


def positive(layers):
    """every count is at least one"""
    v = map_get(None, sname('any'), layers)
    return v is ABSENT or cur().valid(count_term(v) >= 1)


def satisfies(layers, inv):
    """every entry satisfies the contract's invariant"""
    q = sname('any')
    v = map_get(None, q, layers)
    return v is ABSENT or cur().valid(inv(q, count_term(v)))


def raised(layers, base, L, oid):
    """check: the dictionary only gained entries or had counts raised since `base`"""
    run = cur()
    while layers != base:
        if layers and layers[-1][0] == 'set':
            _, k, v = layers[-1]
            layers = layers[:-1]
            v = count_term(v)
            if L.floor[oid] is not None and not run.valid(v >= L.floor[oid]):
                raise CrossKey('a count below one', L.uid, oid)
            if L.inv is not None and not run.valid(L.inv(k, v)):
                raise Unsupported('an iteration breaks the invariant of the entries')
            old = map_get(None, k, layers)
            if old is ABSENT:
                continue
            if L.fixed[oid] and not run.valid(v == count_term(old)):
                raise CrossKey('a count changes', L.uid, oid)
            if not run.valid(v >= count_term(old)):
                raise Unsupported('an iteration lowers a count other iterations may have raised')
        elif len(layers) == 1 and layers[0][0] == 'base' and isinstance(layers[0][1], MonoMap):
            if L.floor[oid] is not None and layers[0][1].floor is None:
                raise CrossKey('a count below one', L.uid, oid)
            if L.fixed[oid] and not layers[0][1].fixed:
                raise CrossKey('a count changes', L.uid, oid)
            if L.inv is not None and layers[0][1].inv is not L.inv:
                raise Unsupported('an iteration breaks the invariant of the entries')
            layers = layers[0][1].entry
        elif layers and layers[-1][0] == 'loop':
            # entries written by a loop inside the iteration, each under its own key
            inner = layers[-1][1]
            run.sub_explore(lambda: raised_at(inner.coll.fresh('entry'), layers, L, oid))
            layers = layers[:-1]
        else:
            raise Unsupported('dictionary of counts changed in another way')


def raised_at(k, layers, L, oid):
    v = map_get(None, k, layers)
    old = map_get(None, k, layers[:-1])
    if v is ABSENT:
        if old is not ABSENT:
            raise Unsupported('dictionary of counts changed in another way')
        return
    raised((('set', k, v),) if old is ABSENT else (('set', k, old), ('set', k, v)), () if old is ABSENT else (('set', k, old),), L, oid)


def first_item(segs):
    for s in segs:
        if s[0] == 'items' and s[1]:
            return s[1][0]
    raise Unsupported('list element of a loop')


def as_bool(e):
    return z3.BoolVal(e) if isinstance(e, bool) else e


def owner(ref, k, around):
    """the collection whose element under key k the object belongs to (what an enclosing iteration made belongs to all of it)"""
    return owner_of([x for x in ref.origin if x[0] not in around], k)


def owner_of(chain, k):
    for uid, x in chain:
        if tid(x) == tid(k):
            return uid
    return next((uid for uid, x in chain if same_key(x, k)), None)


def same_key(a, k):
    e = key_eq(a, k)
    if e is True:
        return True
    if e is False:
        return False
    run = cur()
    d = run.decided.get(e.get_id())
    if d is not None:
        return d[0]
    key = (e.get_id(), len(run.facts), run.depth)
    hit = run.cache.get(key)
    if hit is None or hit[1] is not run.facts or not hit[2].eq(e):
        hit = run.cache[key] = (run.valid(e), run.facts, e)
    return hit[0]


def same_val(a, b):
    if a is b:
        return True
    try:
        if isinstance(a, Sym) and isinstance(b, Sym):
            return z3.eq(a.t, b.t)
        return type(a) is type(b) and not isinstance(a, Ref) and bool(a == b)
    except Exception:
        return False


def probe(after, shape, ax, k):
    """True when an element outside slice `k` of axis `ax` may have been written"""
    idx = tuple(fresh(f'p{j}', z3.IntSort()) for j in range(len(shape)))
    cur().fact(idx[ax] != term(k))
    for j, d in enumerate(shape):
        cur().fact(z3.And(idx[j] >= 0, idx[j] < ops.dim_t(d)))
    try:
        v = after[1](idx)
    except Unsupported:
        return True
    return not (isinstance(v, OldVal) and all(z3.eq(ops.dim_t(a), ops.dim_t(b)) for a, b in zip(v.idx, idx)))


def delta(a0, a1):
    td = isinstance(a0, TD)
    if td != isinstance(a1, TD):
        raise Unsupported('accumulator changes type')
    if td:
        a0, a1 = a0.s, a1.s
    d = z3.simplify(rterm(a1) - a0.t)
    d = z3.simplify(d, som=True)
    if mentions(d, a0.t):
        raise Unsupported('a number depends on earlier iterations in a way that is not a sum')
    return d


def step_of(L, name, paths, coll, mono):
    """the number every iteration adds to a counter (a guess, checked afterwards)"""
    v = L.vars[name]
    if coll.length is None or coll.dup or ('var', name) in mono or isinstance(v, bool) or not is_num(v):
        return None
    steps = set()
    for x in paths:
        a = x[1].vars.get(name)
        if x[1].outcome != 'ok':
            continue
        if not is_num(a) or isinstance(a, bool):
            return None
        d = z3.simplify(rterm(a) - rterm(v))
        if not z3.is_rational_value(d):
            return None
        d = d.as_fraction()
        steps.add(int(d) if d.denominator == 1 else d)
    return steps.pop() if len(steps) == 1 else None


def mentions(t, x):
    seen = set()
    todo = [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.eq(e, x):
            return True
        todo.extend(e.children())
    return False


def sum_value(L, coll, v0, name, deltas):
    """value of an accumulated number: start + sum over the collection (an uninterpreted constant with sign facts)"""
    run = cur()
    td = isinstance(v0, TD)
    base = v0.s if td else v0
    s = None
    for s2, L2, name2, coll2 in run.extra.get('sums', ()):
        # the same addends over the same collection have the same sum
        if coll2.id == coll.id and all(run.sub_explore(lambda L2=L2, name2=name2: same_addend(coll, L, name, L2, name2))):
            s = s2
            break
    if s is None:
        s = fresh(f'sum_{name}', z3.RealSort())
        run.inexact = run.inexact or 'a sum about which nothing is known'
        run.extra['sums'] = (*run.extra.get('sums', ()), (s, L, name, coll))
    r = wrap(rterm(base) + s, T_FLOAT)
    return TD(r, v0.pandas) if td else r


def same_addend(coll, L, name, L2, name2):
    k = coll.fresh('addend')
    return cur().valid(rterm(delta_at(L, name, k)) == rterm(delta_at(L2, name2, k)))


def delta_at(L, name, k):
    r = L.at(k)
    return wrap(delta(L.nums[name], r.vars[name]), T_FLOAT)


def accelerate_while(ip, node, env):
    raise Unsupported('while loop with a symbolic condition')
