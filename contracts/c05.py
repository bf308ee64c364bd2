"""Steps are executed once, in order, on a consistent clock."""

import z3

from pyvc.lib import Block

from .c08 import stress_step
from .kit import *  # noqa: F403
from .kit import bind, contract, zeq
from .measure import MeasStep
from .stress import *  # noqa: F403

ASSUMPTIONS = [
    'contract of a callee discharged here as well: iteration over a test specification (C04.start, C04.next)',
    'contracts of callees discharged by their own checks: calc_samples_needed (C04), gen_init_state (C17)',
    'the conditions of a step are not called like a column of the summary table',
    'one row tables: pd.DataFrame of a dictionary of scalars and pd.concat keep every value, in order',
]
DEPENDS = ('C04.start', 'C04.next')

COLUMNS = ('step name', 'step type', 'step number', 'duration', 'start time', 'end time')


def one_row(k, blocks):
    """the single row a step adds to the summary"""
    ok = len(blocks) == 1 and isinstance(blocks[0], Block) and isinstance(blocks[0].n, int) and blocks[0].n == 1
    k.ensure('one_row', ok, f'{len(blocks)} rows are added')
    if not ok:
        raise Infeasible
    b = blocks[0]
    return (lambda c: map_get(b.row, c)) if b.row is not None else (lambda c: b.cols[c](0) if c in b.cols else ABSENT)


def check_row(k, cell, want, conds):
    for c in COLUMNS:
        if orig_get(conds, c) is not ABSENT:
            raise Infeasible
    for c, w in want.items():
        got = cell(c)
        k.ensure(c.replace(' ', '_'), got is not ABSENT and cell_eq(got, w), f'{c}: {got!r}')
    n = sname('condition')
    for c in COLUMNS:
        k.assume(n.t != code(c))
    got, w = cell(n), orig_get(conds, n)
    k.ensure('conditions', got is w if got is ABSENT or w is ABSENT else zeq(got, w), f'applied condition: {got!r}')


def cell_eq(got, want):
    if isinstance(want, TD) != isinstance(got, TD):
        return False
    return zeq(got, want)


@contract('C05.stress_row', 'sim._sim_stress_step')
def stress_row(k):
    """a stress step adds one summary row; it starts at the clock's time, lasts its duration and leaves the clock at its end"""
    w = World(k, ('array',))
    name = sname('step_name')
    _, state, report, conds, dur, envcalls, r = stress_step(k, ('array',), w, name)
    k.returns('returns', r)
    e = k.get(state, 'elapsed')
    k.ensure('clock', rterm(e.s) == rterm(w.elapsed) + rterm(dur.s) if isinstance(e, TD) else False, f'{e!r}')
    fr = k.get(report, 'test_summary')
    ok = isinstance(fr, FrameRef) and fr.st[:1] == w.earlier
    k.ensure('earlier_kept', ok, 'rows of earlier steps')
    if not ok:
        raise Infeasible
    check_row(k, one_row(k, fr.st[1:]), {'step name': name, 'step type': 'stress', 'step number': w.step_id, 'duration': dur,
                                         'start time': TD(w.elapsed), 'end time': TD(wrap(rterm(w.elapsed) + rterm(dur.s), T_FLOAT))}, conds)


@contract('C05.measure_row', 'sim._sim_meas_step')
def measure_row(k):
    """a measurement step adds one summary row that takes no time"""
    w = World(k, ('array',), circ=True)
    s = MeasStep(k, w)
    if isinstance(s.result, Raised):
        raise Infeasible
    e = k.get(s.state, 'elapsed')
    k.ensure('clock', rterm(e.s) == rterm(s.elapsed) if isinstance(e, TD) else False, f'{e!r}')
    check_row(k, one_row(k, s.summary()), {'step name': s.name, 'step type': 'measure', 'step number': s.step_id, 'duration': TD(0),
                                           'start time': TD(s.elapsed), 'end time': TD(s.elapsed)}, s.conds)


# ----------------------------------------------------------------------------------------------------------- the whole test
class Simulation:
    """the real simulate on a test with any number of steps"""

    def __init__(self, k, given):
        self.k = k
        self.n = k.int('steps', 0)
        n = self.n.t
        self.kinds = {}
        rng = SColl(f'positions{k.run.fresh_id()}', lambda j: wrap(z3.And(term(j) >= 0, term(j) < n)) if isinstance(j, (int, Sym)) else False, 'int', None, n)

        def step(j):
            nm = sname('step_name')
            conds = k.map(k.names('conds'), lambda c: k.num('cval'))
            if k.pick('stress', 'measure') == 'stress':
                d = k.real('dur')
                s = k.new('test_specs.StrsSpec', conds, TD(d), nm)
            else:
                s = k.new('test_specs.MeasSpec', k.map(k.names('what'), lambda p: k.int('count', 1)), conds, nm)
            if isinstance(s, Raised):
                raise Infeasible
            return s

        with k.region('test'):
            self.base = MapBase(rng, step)
            self.coll = SColl(rng.id, rng._member, 'int', self.base.get, n)
            self.steps = ListRef(segs=(('coll', self.coll),))
            self.test = k.new('test_specs.TestSpec', self.steps, k.int('chips', 1), k.int('lots', 1), sname('name'))
        if isinstance(self.test, Raised):
            raise Infeasible
        self.w = World(k, ('array',))
        self.dev = self.w.device()
        with k.region('environment'):
            self.env = k.new('phys_envs.PhysTestEnv')
        self.start = k.real('start')
        self.init = self.w.state(self.start) if given else None
        self.made = None
        self.log = ListRef()
        self.memo = {}
        self.stubs()
        args = [self.test, self.dev, self.env] + ([self.init] if given else [])
        self.result = k.call('sim.simulate', *args)

    def havoc(self, ref, opaque, elapsed=None):
        def state(j):
            ex = cur().extra
            key = ('havoc', ref.oid, None if j is None else tid(j))
            if key not in ex or j is None:
                st = dict(ref.init)
                st.update(cur().heap.get(ref.oid, {}))
                for a in opaque:
                    st[a] = Poison(f'{a} after a step')
                if elapsed:
                    st[elapsed] = TD(sreal('now'))
                ex[key] = st
            return ex[key]

        self.k.ip.havoc[ref.oid] = (ref, state)

    def stubs(self):
        k, w = self.k, self.w
        stubs = k.ip.stubs
        stubs['iter:TestSpec'] = lambda ip, v: ip.iterate(ip.getattr(v, 'steps'))
        stubs['test_specs.TestSpec.calc_samples_needed'] = lambda ip, f, args, kwargs, kwmap: k.map(k.names('needed'), lambda p: k.int('samples', 1))

        def gen(ip, f, args, kwargs, kwmap):
            b = bind(f, args, kwargs, ('dev_mdl', 'dev_counts', 'num_chps', 'num_lots', 'quantity_info', 'elapsed_time'))
            e = b['elapsed_time']
            if not isinstance(e, TD):
                raise Unsupported('elapsed time of the initial state')
            self.made = w.state(e.s)
            return self.made

        def a_step(kind):
            def run_step(ip, f, args, kwargs, kwmap):
                b = bind(f, args, kwargs, ('step', 'sim_state', 'dev_mdl', 'test_env', 'report', 'step_id'))
                st, rep = b['sim_state'], b['report']
                if not isinstance(st, ObjRef) or not isinstance(rep, ObjRef):
                    raise Unsupported('state or report of a step')
                before = k.get(st, 'elapsed')
                ip.setattr(st, 'elapsed', TD(sreal('after')))
                for a in ('curr_prm_vals', 'curr_deg_mech_vals'):
                    ip.setattr(st, a, Poison(f'{a} after a step'))
                for a in ('measurements', 'test_summary'):
                    ip.setattr(rep, a, Poison(f'{a} after a step'))
                list_append(self.log, (kind, b['step'], st, b['dev_mdl'], b['test_env'], rep, b['step_id'], before, k.get(st, 'elapsed')))
                if st.oid not in ip.havoc:
                    self.havoc(st, ('curr_prm_vals', 'curr_deg_mech_vals'), 'elapsed')
                    self.havoc(rep, ('measurements', 'test_summary'))
                return None

            return run_step

        stubs['sim.gen_init_state'] = gen
        stubs['sim._sim_stress_step'] = a_step('StrsSpec')
        stubs['sim._sim_meas_step'] = a_step('MeasSpec')


@contract('C05.order', 'sim.simulate')
def order(k):
    """every step of the test is executed exactly once, in order, under its own number, on one state and one report"""
    given = k.pick(False, True)
    s = Simulation(k, given)
    rep = k.returns('returns', s.result)
    ok = isinstance(rep, ObjRef) and rep.cls.name == 'SimReport'
    k.ensure('report', ok, f'{rep!r}')
    if not ok:
        raise Infeasible
    if not s.coll.nonempty():
        k.ensure('nothing_else', not list_nonempty(s.log), 'no step, nothing executed')
        return
    j = s.coll.fresh('pos')
    segs = s.log.st
    ok = len(segs) == 1 and segs[0][0] in ('coll', 'loop')
    if not ok:
        raise Unsupported('steps executed by more than one loop')
    if segs[0][0] == 'loop':
        # some steps execute more or less than one step function
        items = segs[0][1].new_segs(segs[0][2], j)
        items = items[0][1] if items and items[0][0] == 'items' else ()
        k.ensure('once', len(items) == 1, f'step executed {len(items)} times')
        if len(items) != 1:
            raise Infeasible
        item = items[0]
        coll = segs[0][1].coll
    else:
        coll = segs[0][1]
        item = coll.elem(j)
        k.ensure('once', True)
    k.ensure('all', z3.BoolVal(coll.member(j)), 'every step is executed')
    x = sint('other')
    if coll.member(x):
        k.ensure('no_more', z3.And(x.t >= 0, x.t < s.n.t), 'nothing but the steps of the test')
    kind, step, state, dev, env, r, num, before, after = item
    want = s.base.get(j)
    k.ensure('in_order', step is want, 'the step at this position')
    k.ensure('kind', kind == want.cls.name, f'{want.cls.name} executed as {kind}')
    k.ensure('number', zeq(num, j), f'{num!r}')
    k.ensure('device', dev is s.dev)
    k.ensure('environment', env is s.env)
    k.ensure('one_report', r is rep, 'the report that is returned')


@contract('C05.clock', 'sim.simulate')
def clock(k):
    """the clock starts at the starting state's time and only the steps change it"""
    given = k.pick(False, True)
    s = Simulation(k, given)
    if isinstance(s.result, Raised) or not s.coll.nonempty():
        raise Infeasible
    j = s.coll.fresh('pos')
    segs = s.log.st
    if len(segs) != 1 or segs[0][0] != 'coll':
        raise Unsupported('steps executed in another way')
    item = segs[0][1].elem(j)
    state, before, after = item[2], item[7], item[8]
    ref, entry = k.ip.havoc[state.oid]
    now = entry(j)['elapsed']
    k.ensure('continues', cell_eq(before, now), 'the step starts when the previous one ended')
    i = sint('second')
    if not s.coll.member(i):
        raise Infeasible
    k.ensure('one_state', segs[0][1].elem(i)[2] is state, 'all steps advance the same state')
    L = segs[0][1].loop
    if given:
        k.ensure('copy', state is not s.init and s.made is None, 'a copy of the given state')
        first = L.snap.heap.get(state.oid, state.init)['elapsed']
        k.ensure('start', cell_eq(first, TD(s.start)), f'starts at {first!r}')
    else:
        k.ensure('generated', state is s.made, 'the generated state')
        first = L.snap.heap.get(state.oid, state.init)['elapsed']
        k.ensure('start', cell_eq(first, TD(0)), f'starts at {first!r}')
