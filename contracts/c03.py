"""Appending steps to a test."""

import z3

from .c01 import ALIAS, bad_unit, factor
from .c04 import Steps
from .c10 import stored
from .kit import *  # noqa: F403
from .kit import contract, zeq

ASSUMPTIONS = [
    'datetime.timedelta is treated as an exact real number of seconds (its rounding to microseconds is dropped)',
    'the quotient of two durations is a whole number exactly when it is one in real arithmetic',
    'termination of the append loop is not part of the contract (the durations of stress steps are positive: every iteration adds their sum)',
]

CYCLE = '''
def cycle(steps):
    t = timedelta()
    for step in steps:
        if type(step) is StrsSpec:
            t += step.duration
    return t
'''


def list_segs(l):
    return tuple(l.st)


class AppendLoop:
    """the loop rule: before every iteration the list is the old one followed by n whole copies of the steps, the time counted is n times the
    stress time of one copy, and before the last iteration it was still short of the duration"""

    def __init__(self, k, steps, before, cycle):
        self.k, self.steps, self.before, self.cycle, self.exit = k, steps, before, cycle, None

    def __call__(self, ip, node, env):
        k, run = self.k, self.k.run
        if self.exit is not None:
            raise Unsupported('more than one loop')
        changed = stored(node.body)
        times = [n for n in changed if isinstance(env.vars.get(n), TD)]
        if len(times) != 1 or any(n in env.vars and n not in times for n in changed):
            raise Unsupported('the append loop keeps its state in another way')
        t = times[0]
        k.ensure('entry.time', rterm(env.vars[t].s) == 0, 'no time counted before the first iteration')
        k.ensure('entry.list', list_segs(self.steps) == self.before, 'nothing added before the first iteration')
        n = k.int('copies', 0)
        tau = rterm(n) * self.cycle
        env.vars[t] = TD(wrap(tau, T_FLOAT))
        copies = ('unknown', f'copies{run.fresh_id()}')
        self.steps.put((*self.before, copies))
        if k.pick('iteration', 'exit') == 'exit':
            first = truth(wrap(n.t == 0))
            if not first:
                # the iteration before was executed: the condition held in the state it started from
                env.vars[t] = TD(wrap((rterm(n) - 1) * self.cycle, T_FLOAT))
                if not truth(ip.ev(node.test, env)):
                    raise Infeasible
                env.vars[t] = TD(wrap(tau, T_FLOAT))
            if truth(ip.ev(node.test, env)):
                raise Infeasible
            self.exit = n, tau, copies
            for x in changed:
                if x != t:
                    env.vars[x] = Poison(f'{x} after the loop')
            return
        if not truth(ip.ev(node.test, env)):
            raise Infeasible
        start, heap = run.counter, dict(run.heap)
        ip.exec_block(node.body, env)
        for oid, st in run.heap.items():
            if oid <= start and oid != self.steps.oid and st is not heap.get(oid, st):
                raise Unsupported('an iteration changes another object')
        now = list_segs(self.steps)
        k.ensure('iteration.copy', now[: len(self.before) + 1] == (*self.before, copies) and same_segs(now[len(self.before) + 1:], self.copy),
                 'exactly one whole copy of the steps is added')
        v = env.vars[t]
        k.ensure('iteration.time', rterm(v.s) == (rterm(n) + 1) * self.cycle if isinstance(v, TD) else False, 'the stress time of one copy is counted')
        raise Infeasible


def same_segs(a, b):
    return len(a) == len(b) and all(x == y or x[0] == y[0] == 'items' and len(x[1]) == len(y[1]) and all(p is q for p, q in zip(x[1], y[1])) for x, y in zip(a, b))


class Append:
    def __init__(self, k, loop):
        self.k = k
        self.s = Steps(k)
        self.test, self.steps = self.s.test, self.s.steps
        self.before = list_segs(self.steps)
        self.kind = k.pick('stress', 'measure', 'list')
        if self.kind == 'list':
            self.more = Steps(k)
            self.arg = self.more.steps
            self.copy = list_segs(self.arg)
        else:
            conds = k.map(k.names('conds'), lambda c: k.num('cval'))
            if self.kind == 'stress':
                self.arg = k.new('test_specs.StrsSpec', conds, TD(k.real('dur')), sname('step_name'))
            else:
                self.arg = k.new('test_specs.MeasSpec', k.map(k.names('what'), lambda p: k.int('count', 0)), conds, sname('step_name'))
            if isinstance(self.arg, Raised):
                raise Infeasible
            self.copy = (('items', (self.arg,)),)

    def no_stress(self):
        """no step to append is a stress step"""
        if self.kind != 'list':
            return self.kind == 'measure'
        r = self.k.spec('def none(steps):\n    return all(type(s) is not StrsSpec for s in steps)', 'gerabaldi.models.test_specs', self.arg)
        return truth(r)

    def cycle(self):
        k = self.k
        if self.kind != 'list':
            return rterm(k.get(self.arg, 'duration').s) if self.kind == 'stress' else z3.RealVal(0)
        c = k.spec(CYCLE, 'gerabaldi.models.test_specs', self.arg)
        if isinstance(c, Raised):
            raise Unsupported('specification')
        return rterm(c.s)

    def now(self):
        got = self.k.get(self.test, 'steps')
        if got is not self.steps:
            raise Unsupported('the list of steps is replaced')
        return list_segs(got)

    def caller(self):
        if self.kind == 'list':
            self.k.ensure('caller', same_segs(list_segs(self.arg), self.copy), "the caller's list stays as it is")


@contract('C03.append', 'test_specs.TestSpec.append_steps')
def append(k):
    """without a loop duration exactly the steps given are added, in order, at the end"""
    a = Append(k, False)
    k.returns('returns', k.meth(a.test, 'append_steps', a.arg))
    now = a.now()
    k.ensure('at_end', same_segs(now, (*a.before, *a.copy)), f'the steps after the earlier ones')
    a.caller()


@contract('C03.refused', 'test_specs.TestSpec.append_steps')
def refused(k):
    """a duration of zero, steps without stress and unknown units are refused; nothing is added"""
    a = Append(k, True)
    why = k.pick('zero', 'no_stress', 'unit')
    u = k.pick(*ALIAS)
    d = k.num('duration')
    if why == 'zero':
        r = k.meth(a.test, 'append_steps', a.arg, *k.pick((TD(Fraction(0)),), (0, u), (Fraction(0), u)))
    elif why == 'unit':
        r = k.meth(a.test, 'append_steps', a.arg, d, bad_unit(k))
    else:
        if not a.no_stress():
            raise Infeasible
        r = k.meth(a.test, 'append_steps', a.arg, d, u) if k.pick('number', 'duration') == 'number' else k.meth(a.test, 'append_steps', a.arg, TD(k.real('dur')))
    k.raises('refused', r, 'UserConfigError')
    k.ensure('nothing_added', same_segs(a.now(), a.before), 'nothing is added')
    a.caller()


@contract('C03.loop', 'test_specs.TestSpec.append_steps')
def loop(k):
    """with a loop duration: the smallest number of whole copies that reaches it; a warning exactly when the time added is no multiple"""
    a = Append(k, True)
    if a.no_stress():
        raise Infeasible
    cycle = a.cycle()
    if k.pick('number', 'duration') == 'number':
        u = k.pick(*ALIAS)
        x = k.num('loop_for')
        d = rterm(x) * factor(u)
        args = [a.arg, x, u]
    else:
        x = TD(k.real('loop_for'))
        d = rterm(x.s)
        args = [a.arg, x]
    k.assume(d != 0)
    rule = AppendLoop(k, a.steps, a.before, cycle)
    rule.copy = a.copy
    k.ip.loop_rules['while'] = rule
    r = k.meth(a.test, 'append_steps', *args)
    if rule.exit is None:
        if isinstance(r, Raised):
            k.ensure('accepted', False, f'{r!r}')
            raise Infeasible
        raise Unsupported('steps are appended in another way')
    n, tau, copies = rule.exit
    k.ensure('copies', a.now() == (*a.before, copies), 'whole copies after the earlier steps, nothing else')
    k.ensure('reached', tau >= d, 'the stress time added reaches the duration')
    k.ensure('smallest', z3.Or(n.t == 0, tau - cycle < d), 'one copy less does not')
    warned = isinstance(r, Raised)
    if warned:
        k.ensure('warning', r.name == 'UserWarning', f'{r!r}')
    whole = z3.IsInt(tau / d)
    k.ensure('warned', z3.Not(whole) if warned else whole, 'a warning exactly when the time added is no multiple of the duration')
    a.caller()
