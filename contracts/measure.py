"""What the contracts of a measurement step share: the real step on a device of any size, its callees by contract."""

import z3

from .kit import *  # noqa: F403
from pyvc.lib import Block

from .kit import Specs, bind, zeq
from .stress import *  # noqa: F403


class SeriesCall(Rec):
    def series(self):
        return SeriesRef((self.shape[0], lambda i: Sym(self.f(dim_t(i)), T_FLOAT)))


def count_map(k, coll, f):
    return k.map(coll, lambda n: Sym(f(term(n)), T_INT))


class MeasStep:
    """run the real measurement step"""

    def __init__(self, k, w, own_instruments=False, defined=False):
        self.k, self.w = k, w
        self.elapsed, self.step_id = k.real('elapsed'), k.int('step', 0)
        self.state, self.report = w.state(self.elapsed), w.report()
        self.coll = k.names('measured')
        self.cond_coll = k.names('stepconds')
        if defined:  # only parameters of the device and conditions of the step are requested
            old = self.coll
            self.coll = SColl(f'defined{k.run.fresh_id()}', lambda n: old.member(n) and (w.coll.member(n) or self.cond_coll.member(n)))
        self.counts = z3.Function(f'requested!{k.run.fresh_id()}', z3.IntSort(), z3.IntSort())
        self.name = sname('step_name')
        with k.region('test'):
            self.meas = k.map(self.coll, self.requested)
            self.conds = k.map(self.cond_coll, lambda n: k.num('cval'))
            self.step = k.new('test_specs.MeasSpec', self.meas, self.conds, self.name)
        self.dev = w.device()
        with k.region('environment'):
            self.env = self.environment(own_instruments)
        self.before = (('base', 'earlier measurements'),), (('base', 'earlier summary'),)
        k.set(self.report, 'measurements', FrameRef(self.before[0]))
        k.set(self.report, 'test_summary', FrameRef(self.before[1]))
        if isinstance(self.step, Raised):
            raise Infeasible
        self.gens = []
        self.stubs()
        self.result = k.private('sim._sim_meas_step', step=self.step, sim_state=self.state, dev_mdl=self.dev, test_env=self.env, report=self.report,
                                step_id=self.step_id)

    def environment(self, own):
        k = self.k
        self.instruments = Specs()
        self.inst_coll = k.names('instruments')
        if not own:
            env = k.new('phys_envs.PhysTestEnv')
        else:
            def make(n):
                o = k.new('phys_envs.MeasInstrument')
                if isinstance(o, Raised):
                    raise Infeasible
                self.instruments.add(n, o)
                return o

            env = k.new('phys_envs.PhysTestEnv', None, k.map(self.inst_coll, make))
        if isinstance(env, Raised):
            raise Infeasible
        return env

    def requested(self, n):
        m = self.counts(term(n))
        self.k.run.fact(m >= 1)
        return Sym(m, T_INT)

    def dims(self, n):
        return (self.w.L.t, self.w.C.t, self.requested(n).t)

    def stubs(self):
        k, w = self.k, self.w
        stubs = k.ip.stubs

        def gen(ip, f, args, kwargs, kwmap):
            b = bind(f, args, kwargs, ('base_vals', 'prms', 'test_info', 'dev_mdl', 'target', 'num_chps', 'num_lots'), True)
            segs = ip.as_segs(b['prms']) if not isinstance(b['prms'], MapRef) else None
            member = (lambda n: map_get(b['prms'], n) is not ABSENT) if segs is None else (lambda n: segs_member(segs, n))

            def conds_of(n):
                if w.coll.member(n):
                    return latent_arrays(k, 'cond', self.dims(n))
                # a condition measured by sensors
                return MapRef([(n, Rec('sensors', {'cond': n}, (1, self.requested(n).t, 1)).array())])

            out = k.map(SColl(f'gen{k.run.fresh_id()}', member), conds_of)
            self.gens.append((b, out))
            return out

        def shift(ip, f, args, kwargs, kwmap):
            b = bind(f, args, kwargs, ('meas_dims', 'strs_conds', 'deg_vals', 'latents'), True)
            return Rec('shift', {**b, 'self': args[0]}, tuple(dim_t(ops.dim_of(d)) for d in b['meas_dims'])).array()

        def circ(ip, f, args, kwargs, kwmap):
            b = bind(f, args, kwargs, ('num_samples', 'strs_conds', 'degraded_prm_vals', 'latents'), True)
            return Rec('circ', {**b, 'self': args[0]}, (w.L.t, w.C.t, dim_t(ops.dim_of(b['num_samples'])))).array()

        def fmt(ip, f, args, kwargs, kwmap):
            b = bind(f, args, kwargs, ('measured_vals', 'prm_name', 'meas_time', 'meas_step', 'prm_type'))
            v = b['measured_vals']
            if not isinstance(v, ArrRef) or len(v.shape) != 3:
                raise Unsupported('values given to format_measurements')
            n = iprod(*v.shape)
            c = Rec('rows', b, (n,))
            labels = {col: None for col in ('device #', 'chip #', 'lot #')}
            if key_eq_decide(b['prm_type'], 'parameter'):
                labels = {col: Rec('label', {'column': col, 'of': c}, (n,)) for col in labels}
            cols = {col: (lambda i, r=r: None if r is None else Sym(r.f(dim_t(i)), T_FLOAT)) for col, r in labels.items()}
            return FrameRef((Block(n, {**cols, 'param': lambda i: b['prm_name'], 'step #': lambda i: b['meas_step'], 'time': lambda i: b['meas_time'],
                                       'measured': lambda i: Sym(c.f(dim_t(i)), T_FLOAT)}, None),))

        def measure(ip, f, args, kwargs, kwmap):
            b = bind(f, args, kwargs, ('true_vals',), True)
            v = b['true_vals']
            if not isinstance(v, SeriesRef):
                raise Unsupported('values given to an instrument')
            c = SeriesCall('measure', {**b, 'self': args[0]}, (v.st[0],))
            return c.series()

        stubs['phys_envs.PhysTestEnv.gen_env_cond_vals'] = gen
        stubs['devices.DegPrmMdl.calc_cond_shifted_vals'] = shift
        stubs['devices.CircPrmMdl.calc_circ_vals'] = circ
        stubs['reports.SimReport.format_measurements'] = fmt
        stubs['phys_envs.MeasInstrument.measure'] = measure

    # ---- looking at the result
    def rows(self, p):
        """the part of the measurement table this step added for p: its block of rows"""
        k = self.k
        fr = k.get(self.report, 'measurements')
        if not isinstance(fr, FrameRef):
            raise Unsupported('measurement table')
        st = fr.st
        k.ensure('table.earlier_kept', st[:1] == self.before[0], 'the rows of earlier steps come first, unchanged')
        if st[:1] != self.before[0]:
            raise Infeasible
        return blocks_of(st[1:], p)

    def summary(self):
        k = self.k
        fr = k.get(self.report, 'test_summary')
        if not isinstance(fr, FrameRef):
            raise Unsupported('summary table')
        ok = fr.st[:1] == self.before[1]
        k.ensure('summary.earlier_kept', ok, 'the rows of earlier steps come first, unchanged')
        if not ok:
            raise Infeasible
        return list(fr.st[1:])


def blocks_of(blocks, p):
    """blocks the iteration for p added"""
    out = []
    for b in blocks:
        if isinstance(b, Block):
            out.append(b)
        elif b[0] == 'loop':
            L, name = b[1], b[2]
            if not L.coll.member(p):
                continue
            r = L.at(p)
            f = r.vars[name]
            st = r.heap.get(f.oid, f.init)
            out.extend(blocks_of(st[1:], p))
        elif b[0] == 'tables':  # a list of tables, one per element of a collection
            if b[1].member(p):
                out.extend(blocks_of(b[2](p), p))
        else:
            raise Unsupported(f'part of a table: {b[0]}')
    return out
