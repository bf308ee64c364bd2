"""Iteration over the steps of a test and the samples it needs."""

import z3

from .kit import *  # noqa: F403
from pyvc.values import count_term

from .kit import contract, zeq

ASSUMPTIONS = [
    'the for statement follows the iterator protocol of Python: __iter__ once, then __next__ until StopIteration (C04 states the '
    'effect of each of these calls from every state they can be made in; the sequence is their induction)',
    'requested quantities are not negative',
]


class Steps:
    """a test with any number of steps of either kind"""

    def __init__(self, k):
        self.k = k
        # any property of (name, quantity) every request of the test has
        requested = z3.Function(f'requested!{k.run.fresh_id()}', z3.IntSort(), z3.IntSort(), z3.BoolSort())
        self.requested = lambda p, v: requested(term(p), v)
        self.n = k.int('steps', 0)
        n = self.n.t
        rng = SColl(f'positions{k.run.fresh_id()}', lambda j: wrap(z3.And(term(j) >= 0, term(j) < n)) if isinstance(j, (int, Sym)) else False, 'int', None, n)
        self.specs = {}

        def step(j):
            conds = k.map(k.names('conds'), lambda c: k.num('cval'))
            if k.pick('stress', 'measure') == 'stress':
                s = k.new('test_specs.StrsSpec', conds, TD(k.real('dur')), sname('step_name'))
                if isinstance(s, Raised):
                    raise Infeasible
                return s
            f = z3.Function(f'count!{k.run.fresh_id()}', z3.IntSort(), z3.IntSort())

            def count(p):
                c = f(term(p))
                k.assume(z3.And(c >= 0, self.requested(p, c)))
                return Sym(c, T_INT)

            coll = k.names('what')
            return k.returns('made', k.new('test_specs.MeasSpec', k.map(coll, count), conds, sname('step_name')))

        with k.region('test'):
            self.base = MapBase(rng, step)
            self.coll = SColl(rng.id, rng._member, 'int', self.base.get, n)
            self.steps = ListRef(segs=(('coll', self.coll),))
            self.test = k.returns('test', k.new('test_specs.TestSpec', self.steps))

    def measured(self, j):
        """the dictionary a step at j measures, None for a stress step"""
        s = self.base.get(j)
        return self.k.get(s, 'measurements') if s.cls.name == 'MeasSpec' else None


def unchanged(k, s):
    got = k.get(s.test, 'steps')
    segs = got.st if isinstance(got, ListRef) else ()
    k.ensure('steps_kept', got is s.steps and len(segs) == 1 and segs[0] == ('coll', s.coll), 'the steps of the test stay as they are')


@contract('C04.start', 'test_specs.TestSpec.__iter__')
def start(k):
    """starting an iteration, whatever happened before, yields the first step next"""
    s = Steps(k)
    if k.pick('first', 'again') == 'again':
        k.set(s.test, '_curr_step', k.int('cursor', 0))
    it = k.returns('iterates', k.meth(s.test, '__iter__'))
    if it is not s.test or not isinstance(k.get(it, '_curr_step'), (int, Sym)):
        raise Unsupported('another iterator')
    k.ensure('cursor', zeq(k.get(it, '_curr_step'), 0), 'starts at the first step')
    unchanged(k, s)


@contract('C04.next', 'test_specs.TestSpec.__next__')
def nxt(k):
    """after i steps the next one is step i, or the iteration ends after the last"""
    s = Steps(k)
    it = k.returns('iterates', k.meth(s.test, '__iter__'))
    if it is not s.test or not isinstance(k.get(it, '_curr_step'), (int, Sym)):
        raise Unsupported('another iterator')
    i = k.int('i', 0)
    k.assume(i.t <= s.n.t)
    k.set(s.test, '_curr_step', i)
    r = k.meth(s.test, '__next__')
    unchanged(k, s)
    if k.truth(wrap(i.t == s.n.t)):
        k.raises('ends', r, 'StopIteration')
        return
    r = k.returns('yields', r)
    k.ensure('in_order', r is s.base.get(i), 'the step at this position')
    k.ensure('advances', zeq(k.get(s.test, '_curr_step'), wrap(i.t + 1)), 'the position after it is next')


@contract('C04.samples', 'test_specs.TestSpec.calc_samples_needed')
def samples(k):
    """the largest quantity any measurement step requests; nothing for what is never measured

    The entry of p is at least every request for p ('enough'), and it has every property that all requests for p have ('some_request',
    for an arbitrary property, the invariant of the entries of the loop), so it is one of them."""
    s = Steps(k)
    k.ip.entry_inv = s.requested
    r = k.returns('returns', k.meth(s.test, 'calc_samples_needed'))
    ok = isinstance(r, MapRef)
    k.ensure('dictionary', ok, f'{r!r}')
    if not ok:
        raise Infeasible
    p = sname('parameter')
    got = map_get(r, p)
    unchanged(k, s)
    if s.coll.nonempty():
        j = s.coll.fresh('pos')
        m = s.measured(j)
        if m is not None:
            q = map_get(m, p)
            if q is not ABSENT:
                k.ensure('measured', got is not ABSENT, 'what a step measures is needed')
                if got is ABSENT:
                    raise Infeasible
                k.ensure('enough', rterm(got) >= rterm(q), f'at least what the step requests: {got!r}')
    if got is not ABSENT:
        k.ensure('some_request', s.requested(p, count_term(got)), 'the quantity is one that a step of the test requests')
