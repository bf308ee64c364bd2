"""The initial state of a simulation."""

import z3

from .device import Spec, free_latents
from .eqn import Eqn
from .kit import *  # noqa: F403
from .kit import Specs, bind, contract, zeq
from .stress import *  # noqa: F403

ASSUMPTIONS = [
    'assumed contract of a callee: LatentVar.gen_latent_vals (C12); LatentMdl.gen_latent_vals (C17.latents) in C17.device; DeviceMdl.gen_init_state (C17.device) in C17.counts',
    'initial-value equations accept arrays and give one value per sample; latent variables are not called like constructor arguments of their model',
    'the quantities come either from the caller or from a report, not from both',
]

def counts_map(k, name='counts'):
    coll = k.names(name, nonempty=wrap(z3.Bool(f'measured!{k.run.fresh_id()}')))
    f = z3.Function(f'{name}!{k.run.fresh_id()}', z3.IntSort(), z3.IntSort())

    def get(n):
        k.run.fact(f(term(n)) >= 1)
        return Sym(f(term(n)), T_INT)

    with k.region('quantities'):
        return k.map(coll, get), coll, get


class Lats:
    """the latent variables of one model, under any names (contract of LatentMdl.gen_latent_vals, C17.latents)"""

    def __init__(self, k, tag, never=()):
        f = z3.Function(f'in_{tag}!{k.run.fresh_id()}', z3.IntSort(), z3.BoolSort())

        def member(n):
            if not is_name(n) or isinstance(n, str) and n in never:
                return False
            return wrap(z3.And(f(term(n)), *[term(n) != code(x) for x in never]))

        self.coll = SColl(f'{tag}{k.run.fresh_id()}', member)
        self.key = ('lats', k.run.fresh_id())

    def sample(self, k, b):
        sh = tuple(dim_t(ops.dim_of(b[x])) for x in ('num_lots', 'num_chps', 'num_devs'))
        uid = k.run.fresh_id()
        cur().extra[self.key] = (*cur().extra.get(self.key, ()), uid)
        f = z3.Function(f'sample!{uid}', z3.IntSort(), *([z3.IntSort()] * 3), z3.RealSort())
        return k.map(self.coll, lambda n: ArrRef(sh, lambda idx: Sym(f(term(n), *[dim_t(i) for i in idx]), T_FLOAT)))

    def is_sample(self, t, n, i):
        """the term is the sample of latent variable n for device i"""
        uids = {f'sample!{u}' for u in cur().extra.get(self.key, ())}
        if not uids:
            raise Unsupported('the latent variables are sampled in another way')
        if not z3.is_app(t) or t.decl().name() not in uids:
            return False
        return z3.And(*[a == dim_t(b) for a, b in zip(t.children(), (term(n), *i))])


class Dev:
    """a device of any size with any latent variables everywhere"""

    def __init__(self, k):
        self.k = k
        self.specs = Specs()
        self.objs = ('objs', k.run.fresh_id())
        self.L, self.C = k.int('L', 1), k.int('C', 1)
        self.n = z3.Function(f'ndev!{k.run.fresh_id()}', z3.IntSort(), z3.IntSort())
        self.coll = k.names('prms')
        with k.region('device'):
            self.prms = k.map(self.coll, self.prm)
            self.dev = k.new('devices.DeviceMdl', self.prms)
        if isinstance(self.dev, Raised):
            raise Infeasible

        def lat(ip, f, args, kwargs, kwmap):
            b = {'num_devs': 1, 'num_chps': 1, 'num_lots': 1, **bind(f, args, kwargs, ('num_devs', 'num_chps', 'num_lots'), True)}
            mine = next((x for o, x in cur().extra.get(self.objs, ()) if o is args[0]), None)
            if mine is None:
                raise Unsupported('latent variables of another model')
            return mine.sample(k, b)

        k.ip.stubs['devices.LatentMdl.gen_latent_vals'] = lat

    def made(self, o, lats):
        if isinstance(o, Raised):
            raise Infeasible
        cur().extra[self.objs] = (*cur().extra.get(self.objs, ()), (o, lats))
        return o

    def mech(self, n, lst):
        k = self.k
        cls = k.pick('DegMechMdl', 'FailMechMdl')
        unit = k.num('unitary')
        lats = Lats(k, 'mlat')
        o = self.made(k.new(f'devices.{cls}', None, None, unit, 'h'), lats)
        lst.add(n, Spec(obj=o, unitary=k.get(o, 'unitary'), lats=lats))
        return o

    def prm(self, n):
        k = self.k
        eqn = Eqn('prm', k.names('pparams'), 'array', ())
        if k.pick('deg', 'circ') == 'circ':
            lats = Lats(k, 'clat')
            o = self.made(k.new('devices.CircPrmMdl', eqn), lats)
            self.specs.add(n, Spec(kind='circ', obj=o, eqn=eqn, lats=lats))
            return o
        lst = Specs()
        mcoll = k.names('mechs')
        mm = k.map(mcoll, lambda x: self.mech(x, lst))
        ilats, clats, lats = Lats(k, 'ilat'), Lats(k, 'slat'), Lats(k, 'plat', ('cond',))
        ieqn = Eqn('init', k.names('iparams'), 'array', (self.L.t, self.C.t, self.n(term(n))), always=True)
        init = self.made(k.new('devices.InitValMdl', ieqn), ilats)
        cond = self.made(k.new('devices.CondShiftMdl', Eqn('cond', k.names('cparams'), 'array', ()), None, k.num('cunit')), clats)
        o = self.made(k.new('devices.DegPrmMdl', mm, init_val_mdl=init, cond_shift_mdl=cond, compute_eqn=eqn), lats)
        find = lst.find
        self.specs.add(n, Spec(kind='deg', obj=o, eqn=eqn, ieqn=ieqn, ilats=ilats, clats=clats, lats=lats, mechs=mcoll,
                               mech=lambda x: (map_get(mm, x), find(x))[1]))
        return o

    def spec(self, n):
        map_get(self.prms, n)
        return self.specs.find(n)


def sampled(k, name, v, i, sh, lats, x):
    """the array holds the samples of that latent variable, one per lot, chip and device"""
    ok = isinstance(v, ArrRef) and len(v.shape) == 3
    k.ensure(f'{name}.shape', z3.And(*[dim_t(a) == dim_t(b) for a, b in zip(v.shape, sh)]) if ok else False, f'one value per lot, chip and device: {v!r}')
    if not ok:
        raise Infeasible
    t = rterm(v.at(i))
    k.ensure(name, lats.is_sample(t, x, i), f'own sample of this latent variable: {t}')


def entry(k, name, m, key):
    v = map_get(m, key) if isinstance(m, MapRef) else ABSENT
    k.ensure(name, v is not ABSENT, f'entry {key!r} of {m!r}')
    if v is ABSENT:
        raise Infeasible
    return v


@contract('C17.device', 'devices.DeviceMdl.gen_init_state')
def device(k):
    """every parameter on every lot and chip gets its devices: initial values from its own latent samples, mechanisms at no effect"""
    d = Dev(k)
    counts, ccoll, count = counts_map(k)
    st = k.meth(d.dev, 'gen_init_state', counts, d.C, d.L)
    st = k.returns('returns', st)
    p = sname('prm')
    if not d.coll.member(p):
        raise Infeasible
    ps = d.spec(p)
    n = entry(k, 'counted', counts, p)
    want = count(p).t if ccoll.member(p) else z3.IntVal(1)
    k.ensure('enough', rterm(n) >= z3.ToReal(want), 'at least as many devices as requested')
    # whatever number was chosen, the state agrees with it
    k.assume(d.n(term(p)) == term(n))
    sh = (d.L.t, d.C.t, term(n))
    i = k.index(sh)
    el = k.get(st, 'elapsed')
    k.ensure('elapsed', isinstance(el, TD) and zeq(el.s, 0), f'elapsed time {el!r}')
    lats = entry(k, 'latents', k.get(st, 'latent_var_vals'), p)
    x = sname('lat')
    if ps.kind == 'circ':
        if ps.lats.coll.member(x):
            sampled(k, 'latent', entry(k, 'latent.there', lats, x), i, sh, ps.lats, x)
        k.ensure('no_value', map_get(k.get(st, 'init_prm_vals'), p) is ABSENT and map_get(k.get(st, 'curr_prm_vals'), p) is ABSENT, 'nothing to degrade')
        return
    part = k.pick('value', 'own', 'cond', 'mech')
    if part == 'value':
        a, b = entry(k, 'initial', k.get(st, 'init_prm_vals'), p), entry(k, 'current', k.get(st, 'curr_prm_vals'), p)
        for nm, v in (('initial', a), ('current', b)):
            ok = isinstance(v, ArrRef) and len(v.shape) == 3
            k.ensure(f'{nm}.shape', z3.And(*[dim_t(u) == dim_t(s) for u, s in zip(v.shape, sh)]) if ok else False, f'one value per lot, chip and device: {v!r}')
            if not ok:
                raise Infeasible
        k.ensure('independent', a is not b, 'changing the current values leaves the initial ones')
        k.ensure('current.equal', zeq(a.at(i), b.at(i)), 'current values start equal to the initial ones')
        c = value_call(k, 'initial.value', a.at(i), ps.ieqn, i)
        got = c.elem(x, i)
        if ps.ilats.coll.member(x):
            k.ensure('initial.latent', ps.ilats.is_sample(rterm(got), x, i) if is_num(got) else False, f'own latent sample: {got!r}')
        else:
            k.ensure('initial.only', got is ABSENT, f'nothing but its latent variables: {got!r}')
    elif part == 'own':
        if ps.lats.coll.member(x) and not ps.mechs.member(x):
            sampled(k, 'own', entry(k, 'own.there', lats, x), i, sh, ps.lats, x)
    elif part == 'cond':
        if ps.mechs.member('cond') or ps.lats.coll.member('cond'):
            raise Infeasible
        if ps.clats.coll.member(x):
            sampled(k, 'cond', entry(k, 'cond.there', entry(k, 'cond.all', lats, 'cond'), x), i, sh, ps.clats, x)
    else:
        m = sname('mech')
        if not ps.mechs.member(m) or ps.lats.coll.member(m):
            raise Infeasible
        ms = ps.mech(m)
        a = entry(k, 'mech.initial', entry(k, 'mechs.initial', k.get(st, 'init_deg_mech_vals'), p), m)
        b = entry(k, 'mech.current', entry(k, 'mechs.current', k.get(st, 'curr_deg_mech_vals'), p), m)
        for nm, v in (('initial', a), ('current', b)):
            ok = isinstance(v, ArrRef) and len(v.shape) == 3
            k.ensure(f'mech.{nm}.shape', z3.And(*[dim_t(u) == dim_t(s) for u, s in zip(v.shape, sh)]) if ok else False, f'one value per lot, chip and device: {v!r}')
            if not ok:
                raise Infeasible
            k.ensure(f'mech.{nm}.no_effect', zeq(v.at(i), ms.unitary), 'no effect yet')
        k.ensure('mech.independent', a is not b, 'changing the current values leaves the initial ones')
        if ms.lats.coll.member(x):
            sampled(k, 'mech.latent', entry(k, 'mech.latent.there', entry(k, 'mech.latents', lats, m), x), i, sh, ms.lats, x)


class Light(World):
    """any parameters; what they are made of does not matter for the quantities"""

    def __init__(self, k):
        super().__init__(k, ('array',))

        def prm(n):
            eqn = Eqn('prm', k.names('pparams'), 'array', ())
            kind = k.pick('circ', 'deg')
            o = k.new('devices.CircPrmMdl', eqn) if kind == 'circ' else k.new('devices.DegPrmMdl', MapRef(), compute_eqn=eqn)
            if isinstance(o, Raised):
                raise Infeasible
            self.specs.add(n, Spec(kind=kind, obj=o, eqn=eqn))
            return o

        with k.region('device'):
            self.prms = k.map(self.coll, prm)


class Generated:
    """gen_init_state run with the contract of DeviceMdl.gen_init_state in place: it may add entries for parameters that have none"""

    def __init__(self, k, ghost, how=None):
        self.k = k
        self.w = w = Light(k)
        dev = w.device()
        self.m, self.coll, self.count = counts_map(k)
        seen = ('ghost', k.run.fresh_id())
        self.extra = self.more = None

        def gen(ip, f, args, kwargs, kwmap):
            b = {'num_chps': 1, 'num_lots': 1, **bind(f, args, kwargs, ('sample_counts', 'num_chps', 'num_lots'), True)}
            k.ensure('one_state', seen not in cur().extra, 'one state is generated')
            sc = b['sample_counts']
            if not isinstance(sc, MapRef):
                raise Unsupported('sample counts')
            before = sc.st
            if ghost:
                self.extra = sname('unmeasured')
                if w.coll.member(self.extra) and map_get(sc, self.extra) is ABSENT:
                    self.more = k.int('more', 1)
                    map_set(sc, self.extra, self.more)
            cur().extra[seen] = (b, before)
            return ip.instantiate(k.cls('states.SimState'), [MapRef(), MapRef(), MapRef()], {})

        k.ip.stubs['devices.DeviceMdl.gen_init_state'] = gen
        self.how = how if how else 'report' if ghost else k.pick('given', 'report')
        self.elapsed = TD(k.real('elapsed')) if k.pick(False, True) else None
        kw = {'elapsed_time': self.elapsed} if self.elapsed is not None else {}
        if self.how == 'given':
            r = k.call('sim.gen_init_state', dev, self.m, w.C, w.L, **kw)
            if isinstance(r, Raised):
                k.ensure('accepted', r.name == 'UserConfigError' and not self.coll.nonempty(), f'{r!r}')
                raise Infeasible
        else:
            self.rep = w.report()
            k.set(self.rep, 'dev_counts', self.m)
            r = k.returns('accepted', k.call('sim.gen_init_state', dev, quantity_info=self.rep, **kw))
        self.r = r
        g = cur().extra.get(seen)
        k.ensure('generated', g is not None, 'a state was generated')
        if g is None:
            raise Infeasible
        self.args, self.layers = g


@contract('C17.refused', 'sim.gen_init_state')
def refused(k):
    """without quantities there is no state"""
    w = Light(k)
    dev = w.device()
    kw = {'elapsed_time': TD(k.real('elapsed'))} if k.pick(False, True) else {}
    r = k.call('sim.gen_init_state', dev, *k.pick((), (None,), (MapRef(),), (None, w.C, w.L)), **kw)
    k.raises('refused', r, 'UserConfigError')


@contract('C17.counts', 'sim.gen_init_state')
def counts(k):
    """enough devices of every measured parameter and of everything a measured circuit parameter is computed from"""
    g = Generated(k, False)
    w, coll, count = g.w, g.coll, g.count
    k.ensure('chips', dim_t(ops.dim_of(g.args['num_chps'])) == w.C.t, 'chips as requested')
    k.ensure('lots', dim_t(ops.dim_of(g.args['num_lots'])) == w.L.t, 'lots as requested')
    el = k.get(g.r, 'elapsed')
    k.ensure('elapsed', isinstance(el, TD) and zeq(el.s, g.elapsed.s if g.elapsed is not None else 0), f'elapsed time {el!r}')
    p = sname('measured')
    if g.how == 'given':
        now = map_get(g.m, p)
        k.ensure('caller', zeq(now, count(p)) if coll.member(p) and now is not ABSENT else now is ABSENT and not coll.member(p), 'the quantities supplied are left as they are')
    if not coll.member(p):
        raise Infeasible
    v = map_get(None, p, g.layers)
    k.ensure('measured', rterm(v) >= rterm(count(p)) if v is not ABSENT else False, f'at least as many as measured: {v!r}')
    if not w.coll.member(p) or w.spec(p).kind != 'circ':
        return
    q = sname('needed')
    if w.coll.member(q) and w.spec(p).eqn.params.member(q):
        v = map_get(None, q, g.layers)
        k.ensure('dependency', rterm(v) >= rterm(count(p)) if v is not ABSENT else False, f'at least as many as the circuit parameter needs: {v!r}')


@contract('C17.report', 'sim.gen_init_state')
def report(k):
    """the report knows how many devices the state has"""
    g = Generated(k, True)
    q = sname('anything')
    if g.more is not None:
        a = map_get(k.get(g.rep, 'dev_counts'), g.extra)
        k.ensure('unmeasured', zeq(a, g.more) if a is not ABSENT else False, 'also of parameters that are not measured')
        if key_eq_decide(q, g.extra):
            return
    a, c = map_get(k.get(g.rep, 'dev_counts'), q), map_get(None, q, g.layers)
    k.ensure('same', zeq(a, c) if a is not ABSENT and c is not ABSENT else a is c, 'the report knows how many devices there are')


def sample_latents(k):
    """run the real gen_latent_vals of a model with any latent variables"""
    cls = k.pick('InitValMdl', 'CondShiftMdl', 'DegMechMdl', 'CircPrmMdl')
    with k.region('device'):
        m, coll, objs = free_latents(k, cls)
        o = k.returns('constructed', k.new_with(f'devices.{cls}', m, Eqn('eqn', k.names('params'), 'array', ())))

    def lat(ip, f, args, kwargs, kwmap):
        b = {'num_devs': 1, 'num_chps': 1, 'num_lots': 1, **bind(f, args, kwargs, ('num_devs', 'num_chps', 'num_lots'), True)}
        return Rec('lat', {'self': args[0]}, tuple(dim_t(ops.dim_of(b[x])) for x in ('num_lots', 'num_chps', 'num_devs'))).array()

    k.ip.stubs['devices.LatentVar.gen_latent_vals'] = lat
    sh = tuple(k.int(n, 1) for n in ('L', 'C', 'D'))
    return o, m, coll, objs, sh, k.meth(o, 'gen_latent_vals', sh[2], sh[1], sh[0])


@contract('C17.latents', 'devices.LatentMdl.gen_latent_vals')
def latents(k):
    """every latent variable of a model is sampled once for every lot, chip and device"""
    o, m, coll, objs, sh, r = sample_latents(k)
    r = k.returns('returns', r)
    x = sname('lat')
    v = map_get(r, x) if isinstance(r, MapRef) else ABSENT
    if not coll.member(x):
        k.ensure('nothing_else', v is ABSENT and isinstance(r, MapRef), f'{v!r}')
        return
    ok = isinstance(v, ArrRef) and len(v.shape) == 3
    k.ensure('shape', z3.And(*[dim_t(a) == b.t for a, b in zip(v.shape, sh)]) if ok else False, f'one value per lot, chip and device: {v!r}')
    if not ok:
        raise Infeasible
    i = k.index(v.shape)
    t = rterm(v.at(i))
    apps = rec_apps(t, 'lat')
    map_get(m, x)
    good = len(apps) == 1 and z3.eq(apps[0][2], t) and apps[0][0].args['self'] is objs.find(x)
    k.ensure('sample', z3.And(*[dim_t(a) == dim_t(b) for a, b in zip(apps[0][1], i)]) if good else False, f'own sample of this latent variable: {t}')
