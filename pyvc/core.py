"""Path exploration, proof obligations and the symbolic heap.

One `Run` explores one contract: it executes the contract (which calls the real functions through the interpreter) once per
path, forking on symbolic conditions, and collects obligations.  Every obligation is a formula valid on the path it was
raised on; it is discharged by z3 (cvc5 as the second back end) or refuted by a model.
"""

from __future__ import annotations

import subprocess
import time
from fractions import Fraction

import z3


class Unsupported(Exception):
    """The source uses something outside the generator's reach: the obligation stays undecided."""


class Infeasible(Exception):
    """The current path contradicts the assumptions."""


class CrossKey(Unsupported):
    """an iteration of loop `loop` reads or writes entries of dictionary `oid` that other iterations may write"""

    def __init__(self, msg, loop, oid):
        super().__init__(msg)
        self.loop, self.oid = loop, oid


class GiveUp(Exception):
    """Budget exceeded."""


def visible(key, point):
    """what happened at key is over at point"""
    return key < point and point[: len(key)] != key


class Snap:
    """a point of the execution with its heap"""

    __slots__ = ('point', 'heap', 'counter', 'region')

    def __init__(self, point, heap, counter, region=None):
        self.point, self.heap, self.counter, self.region = point, heap, counter, region


class Ctx:
    """State of the path being executed."""

    run = None


C = Ctx()


def cur() -> 'Run':
    return C.run


_SIMP = {}


def simp(t):
    """simplified condition: True, False or a term (cached; the key is kept alive with its result)"""
    i = t.get_id()
    r = _SIMP.get(i)
    if r is None or not r[1].eq(t):
        x = z3.simplify(t)
        r = _SIMP[i] = (True if z3.is_true(x) else False if z3.is_false(x) else x, t)
        if len(_SIMP) > 400000:
            _SIMP.clear()
    return r[0]


def _cvc5_check(assertions, timeout_ms):
    s = z3.Solver()
    s.add(*assertions)
    text = '(set-logic ALL)\n' + s.to_smt2()
    try:
        p = subprocess.run(['cvc5', f'--tlimit={timeout_ms}', '--lang=smt2'], input=text, capture_output=True, text=True,
                           timeout=timeout_ms / 1000 + 5)
        return p.stdout.strip().splitlines()[0] if p.stdout.strip() else 'unknown'
    except Exception:
        return 'unknown'


class Oblig:
    __slots__ = ('id', 'function', 'status', 'backend', 'detail', 'model', 'time', 'count')

    def __init__(self, id, function):
        self.id, self.function = id, function
        self.status, self.backend, self.detail, self.model, self.time, self.count = 'proved', 'syntactic', '', None, 0.0, 0

    def merge(self, status, backend, detail='', model=None, dt=0.0):
        order = {'proved': 0, 'unknown': 1, 'unsupported': 2, 'refuted': 3}
        self.count += 1
        self.time += dt
        if backend != 'syntactic' and status == 'proved' and self.backend == 'syntactic':
            self.backend = backend
        if order[status] > order[self.status]:
            self.status, self.backend, self.detail, self.model = status, backend, detail, model


class Run:
    def __init__(self, title, timeout_ms=8000, deadline=None, max_paths=4000):
        self.title = title
        self.timeout = timeout_ms
        self.deadline = deadline
        self.max_paths = max_paths
        self.obligs = {}
        self.paths = 0
        self.queries = 0
        self.solver_s = 0.0
        self.backends = {}
        self.vacuity = 0
        self.ended = 0
        self.grace = 20
        self.cache = {}
        self.reset()

    # ---- path state -------------------------------------------------------------------------------------------------
    def reset(self):
        self.decisions = []
        self.start_path()

    def start_path(self):
        self.pos = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout)
        self.facts = []
        self.heap = {}
        self.counter = 0
        self.names = {}
        self.apps = {}
        self.lemmas = set()
        self.hooks = []
        self.writes = []
        self.depth = 0
        self.extra = {}
        self.roots, self.parts = {}, {}
        self.decided = {}
        self.touched = {}
        self.origin = ()
        self.region = 'input'  # while the contract prepares its inputs; None while the program runs
        self.mat = frozenset()
        self.touch_log = frozenset()
        self.own_log = frozenset()
        self.muted = 0
        self.inexact = None
        self.owner = {}  # collection: the collections and keys it belongs to
        self.hist = {}  # object: states it took on, with the point of the execution each belongs to
        self.top = 0  # objects numbered up to here existed before the view being evaluated

    # ---- points of the execution --------------------------------------------------------------------------------------
    # What is evaluated lazily is evaluated as of the point where the program got there.  A point is a tuple ordered
    # lexicographically; what happens inside something at point p has points (*p, i).
    @property
    def now(self):
        return self.extra.get('now', (0,))

    def bump(self):
        """a point of its own: after everything so far, before everything that follows"""
        p = self.now
        q = (*p[:-1], p[-1] + 1)
        self.extra['now'] = (*p[:-1], p[-1] + 2)
        return q

    def record(self, oid, state):
        h, now = self.hist.get(oid, ()), self.now
        if h and h[-1][0] == now:
            h = h[:-1]
        self.hist[oid] = (*h, (now, state))

    def as_of(self, oid, point, default=None):
        best = None
        for e in self.hist.get(oid, ()):
            if visible(e[0], point) and (best is None or best[0] <= e[0]):
                best = e
        return default if best is None else best[1]

    def snap(self):
        return Snap(self.bump(), dict(self.heap), self.counter, self.region)

    def at_point(self, point, fn):
        """evaluate fn as of a point (on the current heap); returns its result and what later points still have to do"""
        ex = self.extra
        now, pend = self.now, ex.get('pending', ())
        ex['now'], ex['pending'] = (*point, 0), ()
        try:
            r = fn()
        finally:
            mine = ex.get('pending', ())
            ex['now'], ex['pending'] = now, pend
        return r, mine

    def fresh_id(self):
        self.counter += 1
        return self.counter

    def fact(self, f):
        if isinstance(f, bool):
            if not f:
                raise Infeasible
            return
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        self.facts.append(f)
        self.solver.add(f)
        if z3.is_false(f):
            raise Infeasible

    assume = fact

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise GiveUp('time budget of the proof stage exceeded')

    def sat(self, *extra):
        """'sat' | 'unsat' | 'unknown' for the path plus extra"""
        self.tick()
        self.queries += 1
        t0 = time.time()
        r = self.solver.check(*extra)
        self.solver_s += time.time() - t0
        return str(r)

    def fork(self, cond):
        """Decide a condition on this path, exploring the other outcome later."""
        if isinstance(cond, bool):
            return cond
        cond = simp(cond)
        if cond is True or cond is False:
            return cond
        known = self.decided.get(cond.get_id())
        if known is not None:
            return known[0]
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            val = d[0]
        else:
            t = self.sat(cond)
            f = 'sat' if t == 'unsat' else self.sat(z3.Not(cond))
            if t == 'unsat' and f == 'unsat':
                raise Infeasible
            if t == 'unsat':
                val, alt = False, False
            elif f == 'unsat':
                val, alt = True, False
            else:
                val, alt = True, True
            self.decisions.append([val, alt])
            self.pos += 1
        self.fact(cond if val else z3.Not(cond))
        self.decided[cond.get_id()] = (val, cond)
        return val

    def choose(self, n, label=''):
        """Nondeterministic choice among n alternatives (a case split of the contract itself)."""
        for i in range(n - 1):
            if self.pos < len(self.decisions):
                val = self.decisions[self.pos][0]
            else:
                self.decisions.append([True, True])
                val = True
            self.pos += 1
            if val:
                return i
        return n - 1

    def _backtrack(self):
        while self.decisions and not self.decisions[-1][1]:
            self.decisions.pop()
        if not self.decisions:
            return False
        self.decisions[-1] = [not self.decisions[-1][0], False]
        return True

    # ---- nested exploration -------------------------------------------------------------------------------------------
    def sub_explore(self, fn, limit=400):
        """Run fn on all paths from the current state (state restored afterwards); returns the list of results."""
        saved = (self.decisions, self.pos, self.facts, self.heap, self.counter, self.apps, self.lemmas, self.writes,
                 self.depth, self.extra, self.names, self.touched, self.inexact, self.decided, self.hist)
        results = []
        self.decisions = []
        n = 0
        top = self.counter
        try:
            while True:
                n += 1
                if n > limit:
                    raise GiveUp('too many paths in a loop body')
                self.tick()
                self.pos = 0
                self.facts = list(saved[2])
                self.heap = dict(saved[3])
                top = self.counter = max(top, self.counter)
                self.apps = dict(saved[5])
                self.lemmas = set(saved[6])
                self.writes = list(saved[7])
                self.depth = saved[8] + 1
                self.extra = dict(saved[9])
                self.names = dict(saved[10])
                self.touched = dict(saved[11])
                self.inexact = saved[12]
                self.decided = dict(saved[13])
                self.hist = dict(saved[14])
                self.solver.push()
                try:
                    results.append(fn())
                except Infeasible:
                    pass
                finally:
                    self.solver.pop()
                if not self._backtrack():
                    break
        finally:
            top = max(top, self.counter)
            (self.decisions, self.pos, self.facts, self.heap, self.counter, self.apps, self.lemmas, self.writes, self.depth,
             self.extra, self.names, self.touched, self.inexact, self.decided, self.hist) = saved
            self.counter = top
        return results

    def in_heap(self, snap, fn, heap=None):
        """run fn as of an earlier point (on the heap of then, with what came into view since); what it creates is kept,
        everything else is restored; returns (result, heap after, objects changed, what later points still have to do)"""
        outer, touched, top, below = self.heap, self.touched, self.counter, self.top
        self.heap, self.touched, self.top = dict(heap) if heap is not None else self.start_heap(snap), {}, top
        region, self.region = self.region, snap.region
        try:
            r, pending = self.at_point(snap.point, fn)
        finally:
            self.region = region
            after, t2 = self.heap, self.touched
            self.heap, self.touched, self.top = outer, touched, below
        now, none = self.now, object()
        for oid in after:
            if oid > top:
                st = self.as_of(oid, now, none)
                if st is not none:
                    outer[oid] = st
        for oid, ref in t2.items():
            if oid > top:
                touched[oid] = ref
        return r, after, t2, pending

    def start_heap(self, snap):
        """the heap of a snapshot, with the objects that came into view since in the state they had then"""
        heap, none = dict(snap.heap), object()
        for oid in self.hist:
            if oid > snap.counter:
                st = self.as_of(oid, snap.point, none)
                if st is not none:
                    heap[oid] = st
        return heap

    # ---- obligations --------------------------------------------------------------------------------------------------
    def ob(self, id, function):
        if id not in self.obligs:
            self.obligs[id] = Oblig(id, function)
        return self.obligs[id]

    def prove(self, id, function, goal, detail=''):
        """Discharge one obligation on this path; returns True when proved."""
        if self.muted:
            return True
        o = self.ob(id, function)
        if isinstance(goal, bool):
            if goal:
                o.merge('proved', 'syntactic')
                return True
            goal = z3.BoolVal(False)
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            o.merge('proved', 'syntactic')
            return True
        self.tick()
        t0 = time.time()
        self.queries += 1
        r = self.solver.check(z3.Not(goal))
        backend = 'z3'
        model = self.solver.model() if r == z3.sat else None
        if r == z3.unknown:
            r2 = _cvc5_check([*self.solver.assertions(), z3.Not(goal)], self.timeout)
            backend = 'cvc5'
            r = {'unsat': z3.unsat, 'sat': z3.sat}.get(r2, z3.unknown)
            model = 'cvc5: sat' if r == z3.sat else None
        dt = time.time() - t0
        self.solver_s += dt
        if r == z3.unsat:
            self.backends[backend] = self.backends.get(backend, 0) + 1
            o.merge('proved', backend, dt=dt)
            return True
        if r == z3.sat and self.inexact:
            o.merge('unknown', backend, f'not proved over an abstraction ({self.inexact}); {detail} goal: {str(goal)[:600]}', None, dt)
        elif r == z3.sat:
            o.merge('refuted', backend, f'{detail} goal: {str(goal)[:600]}', str(model)[:3000], dt)
        else:
            o.merge('unknown', backend, f'{detail} goal: {str(goal)[:600]}', None, dt)
        return False

    def valid(self, goal):
        """Is goal entailed on this path (no obligation recorded)?"""
        if isinstance(goal, bool):
            return goal
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return True
        if z3.is_false(goal):
            return self.sat() == 'unsat'
        return self.sat(z3.Not(goal)) == 'unsat'

    def donate(self):
        """give away the shallowest open alternative of the current path (as the decisions leading to it)"""
        for i, (val, alt) in enumerate(self.decisions):
            if alt:
                self.decisions[i] = [val, False]
                return [*[[v, False] for v, _ in self.decisions[:i]], [not val, False]]
        return None

    def explore(self, fn, function, prefix=(), share=None):
        """Run the contract fn on every path below the given decisions; share() may take alternatives over."""
        from .values import left_behind

        C.run = self
        self.decisions = [list(d) for d in prefix]
        failed_at = None
        while True:
            self.paths += 1
            if self.paths > self.max_paths:
                self.ob(f'{self.title}.explored', function).merge('unknown', 'generator', 'too many paths')
                break
            self.start_path()
            try:
                fn()
                real = self.sat() != 'unsat'
                self.ended += real
                left = left_behind(self.writes) if real else ()
                if left:
                    self.ob(f'{self.title}.history', function).merge('unknown', 'generator', f'later calls may see what this one leaves behind: {", ".join(left)}')
                elif real:
                    self.ob(f'{self.title}.history', function).merge('proved', 'syntactic')
            except Infeasible:
                pass
            except Unsupported as e:
                self.ob(f'{self.title}.reach', function).merge('unsupported', 'generator', str(e)[:500])
                failed_at = failed_at or time.time()
            except GiveUp as e:
                self.ob(f'{self.title}.explored', function).merge('unknown', 'generator', str(e))
                failed_at = failed_at or time.time()
                if self.deadline and time.time() > self.deadline:
                    break
            except RecursionError:
                self.ob(f'{self.title}.reach', function).merge('unsupported', 'generator', 'recursion too deep')
                failed_at = failed_at or time.time()
            if failed_at and time.time() > failed_at + self.grace:
                break  # undecided anyway; the time spent on looking for a refutation on other paths is limited
            if not self._backtrack():
                break
            if share:
                share()

    def finish(self, function):
        """Vacuity guard: some path must have reached its end with satisfiable assumptions"""
        self.vacuity += 1
        if not self.ended and not any(o.status != 'proved' for o in self.obligs.values()):
            self.ob(f'{self.title}.vacuity', function).merge('unknown', 'generator', 'no path satisfies the precondition')
        if not self.obligs:
            self.ob(f'{self.title}.vacuity', function).merge('unknown', 'generator', 'no obligation was generated')

    def dump(self):
        return {'obligs': [[getattr(o, a) for a in Oblig.__slots__] for o in self.obligs.values()], 'paths': self.paths, 'queries': self.queries,
                'solver_s': self.solver_s, 'backends': self.backends, 'ended': self.ended}

    def absorb(self, d):
        """merge what another process found on other paths"""
        for id, function, status, backend, detail, model, dt, count in d['obligs']:
            o = self.ob(id, function)
            o.merge(status, backend, detail, model, dt)
            o.count += count - 1
        self.paths += d['paths']
        self.queries += d['queries']
        self.solver_s += d['solver_s']
        self.ended += d['ended']
        for b, n in d['backends'].items():
            self.backends[b] = self.backends.get(b, 0) + n
