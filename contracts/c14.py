"""Conditions applied to the devices and shown to sensors."""

import z3

from .device import free_latents, mechs
from .eqn import Eqn
from .kit import *  # noqa: F403
from .kit import Specs, bind, contract, zeq
from .stress import *  # noqa: F403

ASSUMPTIONS = [
    'assumed contract of a callee: EnvVrtnMdl.gen_batch_vrtn, gen_chp_vrtns, gen_dev_vrtns (C13)',
    'no condition is called like a parameter of the device',
]


class Env:
    """a test environment with any number of variation models, any device, any set of conditions"""

    def __init__(self, k, deg_only=False):
        self.k = k
        self.w = World(k, ('array',), circ=not deg_only, cond_eqn=k.pick(True, False) if not deg_only else True)
        self.mdls = Specs()
        self.var_coll = k.names('varied')

        def make(n):
            o = k.new('phys_envs.EnvVrtnMdl')
            if isinstance(o, Raised):
                raise Infeasible
            self.mdls.add(n, o)
            return o

        with k.region('environment'):
            self.vrtns = k.map(self.var_coll, make)
            self.env = k.new('phys_envs.PhysTestEnv', self.vrtns)
        self.dev = self.w.device()
        self.cond_coll = k.names('conds')
        with k.region('test'):
            self.base = k.map(self.cond_coll, lambda n: k.num('target'))
        self.report = self.w.report()
        if isinstance(self.env, Raised):
            raise Infeasible
        self.stubs()

    def stubs(self):
        k = self.k
        st = k.ip.stubs

        def batch(ip, f, args, kwargs, kwmap):
            b = bind(f, args, kwargs, ('base_val',), True)
            return Rec('batch', {**b, 'self': args[0]}, (1,)).array()

        def chips(ip, f, args, kwargs, kwmap):
            b = bind(f, args, kwargs, ('base_vals', 'num_chps', 'num_lots'), True)
            return Rec('chips', {**b, 'self': args[0]}, (dim_t(ops.dim_of(b['num_lots'])), dim_t(ops.dim_of(b['num_chps'])))).array()

        def devs(ip, f, args, kwargs, kwmap):
            b = bind(f, args, kwargs, ('base_vals', 'num_devs'), True)
            v = b['base_vals']
            if not isinstance(v, ArrRef) or len(v.shape) != 2:
                raise Unsupported('values given to gen_dev_vrtns')
            return Rec('devs', {**b, 'self': args[0]}, (dim_t(v.shape[0]), dim_t(v.shape[1]), dim_t(ops.dim_of(b['num_devs'])))).array()

        for n, fn in (('gen_batch_vrtn', batch), ('gen_chp_vrtns', chips), ('gen_dev_vrtns', devs)):
            st[f'phys_envs.EnvVrtnMdl.{n}'] = fn

    def model_ok(self, name, rec, c):
        """the variation model of condition c was used (an own unvaried one when it has none)"""
        got = rec.args['self']
        if self.var_coll.member(c):
            map_get(self.vrtns, c)
            self.k.ensure(name, got is self.mdls.find(c), 'the variation model of this condition')
        else:
            saved, self.k.ip.stubs = self.k.ip.stubs, {}
            x = self.k.real('any')
            r = self.k.meth(got, 'gen_env_vrtns', x)
            self.k.ip.stubs = saved
            zero = (z3.IntVal(0),) * 3
            self.k.ensure(name, zeq(r.at(zero), x) if isinstance(r, ArrRef) and len(r.shape) == 3 else False, 'a condition without variation model is not varied')


def only(k, name, v, tag, idx, what):
    """the value is exactly one record of that kind at idx"""
    apps = rec_apps(rterm(v), tag)
    ok = len(apps) == 1 and z3.eq(apps[0][2], rterm(v))
    k.ensure(name, ok, f'{what}: {v!r}')
    if not ok:
        raise Infeasible
    k.ensure(f'{name}.sample', z3.And(*[dim_t(a) == dim_t(b) for a, b in zip(apps[0][1], idx)]), f'{what}: {v!r} of this sample')
    return apps[0][0]


def chain(k, e, c, v, i, chips, lots):
    """a value comes from the batch draw and the chip draw of condition c that everything shares"""
    ch = only(k, 'chip', v, 'chips', i, 'value shared by the chip')
    e.model_ok('chip.model', ch, c)
    for a, b in ((ch.args['num_chps'], chips), (ch.args['num_lots'], lots)):
        k.ensure('chip.number', dim_t(ops.dim_of(a)) == dim_t(b), 'one value per chip and lot')
    b = ch.args['base_vals']
    if not isinstance(b, ArrRef) or len(b.shape) != 1:
        raise Unsupported('batch value')
    bt = only(k, 'batch', b.at((z3.IntVal(0),)), 'batch', (z3.IntVal(0),), 'value shared by the batch')
    e.model_ok('batch.model', bt, c)
    k.ensure('target', zeq(bt.args['base_val'], orig_get(e.base, c)), f"target value: {bt.args['base_val']!r}")
    return ch, bt


def conditions(k, e, target, info=True):
    """run the real gen_env_cond_vals: for a dictionary of counts (measuring) or a list of parameters (stressing)"""
    w = e.w
    if target == 'measure':
        coll = k.names('requested')
        cnt = z3.Function(f'count!{k.run.fresh_id()}', z3.IntSort(), z3.IntSort())

        def count(n):
            k.run.fact(cnt(term(n)) >= 1)
            return Sym(cnt(term(n)), T_INT)

        prms = k.map(coll, count)
    else:
        coll, prms, count = w.coll, ListRef(segs=(('coll', w.coll),)), lambda n: Sym(w.count(n), T_INT)
    how = {'test_info': e.report} if info else {'num_chps': w.C, 'num_lots': w.L}
    r = k.meth(e.env, 'gen_env_cond_vals', base_vals=e.base, prms=prms, dev_mdl=e.dev, target=target, **how)
    return r, coll, count


class Needs:
    """contract of get_dependencies (C14.dependencies): the conditions among those given that the model needs for the target"""

    def __init__(self, k, e, target):
        self.f = z3.Function(f'needs!{k.run.fresh_id()}', z3.IntSort(), z3.IntSort(), z3.BoolSort())
        self.key = ('needs', k.run.fresh_id())

        def stub(ip, f, args, kwargs, kwmap):
            b = bind(f, args, kwargs, ('conditions', 'target'), True)
            p = next((n for n, x in cur().extra.get(e.w.specs.key, ()) if x.obj is args[0]), None)
            if p is None or not isinstance(b['conditions'], ListRef):
                raise Unsupported('dependencies of another model')
            if e.w.spec(p).kind == 'deg':
                k.ensure('target_asked', b.get('target') == target, f"dependencies asked for {b.get('target')!r}")
            segs = b['conditions'].st
            cur().extra[self.key] = (*cur().extra.get(self.key, ()), p)

            def member(n):
                if not is_name(n) or not segs_member(segs, n):
                    return False
                return wrap(self.f(term(p), term(n)))

            return ListRef(segs=(('coll', SColl(f'needs{cur().fresh_id()}', member)),))

        for c in ('DegPrmMdl', 'CircPrmMdl'):
            k.ip.stubs[f'devices.{c}.get_dependencies'] = stub

    def known(self, p):
        return any(key_eq_decide(p, q) for q in cur().extra.get(self.key, ()))

    def __call__(self, p, c):
        return self.f(term(p), term(c))


@contract('C14.parameter', 'phys_envs.PhysTestEnv.gen_env_cond_vals')
def parameter(k):
    """a parameter gets the conditions it needs, per device on top of the chip and batch values shared by all parameters"""
    e = Env(k)
    target = k.pick('stress', 'measure')
    needs = Needs(k, e, target)
    r, coll, count = conditions(k, e, target, info=target == 'stress' or k.pick(True, False))
    if isinstance(r, Raised):
        raise Infeasible  # something undefined was requested: C14.missing
    p, c = sname('prm'), sname('cond')
    if not e.w.coll.member(p) or not coll.member(p):
        raise Infeasible
    own = map_get(r, p)
    k.ensure('entry', isinstance(own, MapRef), f'conditions of the parameter: {own!r}')
    if not isinstance(own, MapRef):
        raise Infeasible
    v = map_get(own, c)
    if not e.cond_coll.member(c):
        k.ensure('only_conditions', v is ABSENT, 'nothing but conditions of the step')
        return
    if needs.known(p):
        k.ensure('needed', needs(p, c) if v is not ABSENT else z3.Not(needs(p, c)), 'exactly the conditions its own models need')
    if v is ABSENT:
        return
    ok = isinstance(v, ArrRef) and len(v.shape) == 3
    sh = (e.w.L.t, e.w.C.t, count(p).t)
    k.ensure('shape', z3.And(*[dim_t(a) == b for a, b in zip(v.shape, sh)]) if ok else False, f'one value per lot, chip and device: {v!r}')
    if not ok:
        raise Infeasible
    i = k.index(sh)
    d = only(k, 'device', v.at(i), 'devs', i, 'value of the device')
    e.model_ok('device.model', d, c)
    ch, bt = chain(k, e, c, d.args['base_vals'].at(i[:2]), i[:2], e.w.C.t, e.w.L.t)
    # another parameter shares chip and batch values
    q = sname('other')
    if e.w.coll.member(q) and coll.member(q):
        v2 = map_get(map_get(r, q), c)
        if isinstance(v2, ArrRef):
            d2 = only(k, 'device', v2.at((*i[:2], z3.IntVal(0))), 'devs', (*i[:2], z3.IntVal(0)), 'value of the device')
            k.ensure('shared', d2.args['base_vals'].at(i[:2]).t == d.args['base_vals'].at(i[:2]).t, 'all parameters of a chip see the same chip variation')
            if not key_eq_decide(p, q):
                k.ensure('own_draws', d2 is not d, 'device variation of its own')


@contract('C14.sensor', 'phys_envs.PhysTestEnv.gen_env_cond_vals')
def sensor(k):
    """a measured condition gets one value per sensor, sharing only the batch value with the devices"""
    e = Env(k)
    needs = Needs(k, e, 'measure')  # noqa: F841
    r, coll, count = conditions(k, e, 'measure', info=k.pick(True, False))
    if isinstance(r, Raised):
        raise Infeasible
    c = sname('sensed')
    if e.w.coll.member(c) or not coll.member(c) or not e.cond_coll.member(c):
        raise Infeasible
    own = map_get(r, c)
    v = map_get(own, c) if isinstance(own, MapRef) else None
    k.ensure('entry', isinstance(v, ArrRef) and len(v.shape) == 3, f'values of the sensors: {own!r}')
    if not isinstance(v, ArrRef) or len(v.shape) != 3:
        raise Infeasible
    sh = (z3.IntVal(1), count(c).t, z3.IntVal(1))
    k.ensure('shape', z3.And(*[dim_t(a) == b for a, b in zip(v.shape, sh)]), 'one value per sensor')
    n = sname('else')
    if map_get(own, n) is not ABSENT:
        k.ensure('nothing_else', term(n) == term(c), 'only the condition itself')
    i = k.index(sh)
    d = only(k, 'device', v.at(i), 'devs', i, 'value of the sensor')
    e.model_ok('device.model', d, c)
    ch, bt = chain(k, e, c, d.args['base_vals'].at(i[:2]), i[:2], count(c).t, 1)
    q = sname('prm')
    if e.w.coll.member(q) and coll.member(q):
        v2 = map_get(map_get(r, q), c)
        if isinstance(v2, ArrRef):
            zero = (z3.IntVal(0),) * 3
            d2 = only(k, 'device', v2.at(zero), 'devs', zero, 'value of the device')
            ch2 = only(k, 'chip', d2.args['base_vals'].at(zero[:2]), 'chips', zero[:2], 'value shared by the chip')
            k.ensure('own_chip', ch2 is not ch, 'every sensor varies on its own')
            b2 = ch2.args['base_vals']
            same = rterm(b2.at(zero[:1])) == rterm(ch.args['base_vals'].at(zero[:1])) if isinstance(b2, ArrRef) else False
            k.ensure('same_batch', same, 'the batch variation is shared')


@contract('C14.missing', 'phys_envs.PhysTestEnv.gen_env_cond_vals')
def missing(k):
    """what is neither a parameter nor a condition cannot be requested; everything else can"""
    e = Env(k)
    Needs(k, e, 'measure')
    if k.pick(True, False):
        coll = k.names('requested')
        prms = k.map(coll, lambda n: k.int('count', 1))
        p = sname('undefined')
        if not coll.member(p) or e.w.coll.member(p) or e.cond_coll.member(p):
            raise Infeasible
        r = k.meth(e.env, 'gen_env_cond_vals', base_vals=e.base, prms=prms, dev_mdl=e.dev, target='measure', test_info=e.report)
        k.ensure('refused', isinstance(r, Raised) and r.name == 'MissingParamError', f'result: {r!r}')
        return
    old = k.names('requested')

    def member(n):
        return old.member(n) and (e.w.coll.member(n) or e.cond_coll.member(n))

    coll = SColl(f'defined{k.run.fresh_id()}', member)
    prms = k.map(coll, lambda n: k.int('count', 1))
    r = k.meth(e.env, 'gen_env_cond_vals', base_vals=e.base, prms=prms, dev_mdl=e.dev, target='measure', test_info=e.report)
    k.ensure('accepted', not isinstance(r, Raised), f'result: {r!r}')


@contract('C14.exact', 'phys_envs.EnvVrtnMdl.gen_dev_vrtns')
def exact(k):
    """in an environment without variation models every device sees exactly the target value"""
    e = Env(k)
    k.ip.stubs.clear()
    e.env = k.new('phys_envs.PhysTestEnv')
    if isinstance(e.env, Raised):
        raise Infeasible
    needs = Needs(k, e, 'measure')  # noqa: F841
    r, coll, count = conditions(k, e, 'measure')
    if isinstance(r, Raised):
        raise Infeasible
    p, c = sname('requested'), sname('cond')
    if not coll.member(p) or not e.cond_coll.member(c):
        raise Infeasible
    own = map_get(r, p)
    v = map_get(own, c) if isinstance(own, MapRef) else ABSENT
    if v is ABSENT:
        raise Infeasible  # which ones there are: C14.parameter, C14.sensor
    ok = isinstance(v, ArrRef)
    k.ensure('array', ok, f'{v!r}')
    if not ok:
        raise Infeasible
    i = k.index(v.shape)
    k.ensure('exact', zeq(v.at(i), orig_get(e.base, c)), 'exactly the target value')


@contract('C14.dependencies', 'devices.DegPrmMdl.get_dependencies')
def dependencies(k):
    """exactly the conditions of the step that the models used for the target take as argument"""
    target = k.pick('stress', 'measure')
    eqn = Eqn('prm', k.names('pparams'), 'array', ())
    circ = k.pick(False, True)

    def lats():
        with k.region('device'):
            return free_latents(k, 'CircPrmMdl', 'CondShiftMdl', 'DegPrmMdl')[0]

    if circ:
        o, mcoll = k.new_with('devices.CircPrmMdl', lats(), eqn), None
    else:
        mm, mcoll, find = mechs(k, units=False)
        ceqn = Eqn('cond', k.names('cparams'), 'array', ())
        cm = k.new_with('devices.CondShiftMdl', lats(), ceqn, None, k.num('cunit'))
        o = k.new_with('devices.DegPrmMdl', lats(), mm, cond_shift_mdl=cm, compute_eqn=eqn)
    if isinstance(o, Raised):
        raise Infeasible
    conds = k.names('conds')
    c = sname('cond')
    k.assume(z3.And(*[term(c) != code(x) for x in ('time', 'init', 'cond')]))
    given = conds.member(c)
    how = k.pick('own', 'other', 'none')
    if how == 'own' and not eqn.params.member(c):
        raise Infeasible
    if how != 'own' and eqn.params.member(c):
        raise Infeasible
    if how == 'other':
        if circ:
            raise Infeasible
        if target == 'stress':
            m = mcoll.fresh('mech')
            map_get(mm, m)
            if not find(m).eqn.params.member(c):
                raise Infeasible
        elif not ceqn.params.member(c):
            raise Infeasible
    if how == 'none' and not circ:
        if target == 'measure' and ceqn.params.member(c):
            raise Infeasible
        if target == 'stress':
            def not_needed(m):
                map_get(mm, m)
                if find(m).eqn.params.member(c):
                    raise Infeasible

            add_forall(mcoll.id, not_needed)
    r = k.meth(o, 'get_dependencies', ListRef(segs=(('coll', conds),)), target)
    ok = isinstance(r, ListRef)
    k.ensure('list', ok, f'{r!r}')
    if not ok:
        raise Infeasible
    has = segs_member(r.st, c)
    if how == 'none' or not given:
        k.ensure('only_needed', not has, 'a condition no model takes is not requested')
    else:
        k.ensure('all_needed', has, 'a condition a model takes is requested')


@contract('C14.lookup', 'phys_envs.PhysTestEnv.vrtn_mdl')
def lookup(k):
    """variation models and instruments are found under the name they were registered for, ideal ones otherwise"""
    which = k.pick('vrtn', 'instm')
    objs, coll = Specs(), k.names('registered')
    as_list = k.pick(False, True)

    def make(n):
        o = k.new('phys_envs.EnvVrtnMdl' if which == 'vrtn' else 'phys_envs.MeasInstrument', name=n) if as_list else k.new('phys_envs.EnvVrtnMdl' if which == 'vrtn' else 'phys_envs.MeasInstrument')
        if isinstance(o, Raised):
            raise Infeasible
        objs.add(n, o)
        return o

    m = k.map(coll, make)
    given = m
    if as_list:
        given = ListRef(segs=(('coll', SColl(coll.id, coll._member, 'name', lambda n: map_get(m, n))),))
    env = k.new('phys_envs.PhysTestEnv', **{'env_vrtns' if which == 'vrtn' else 'meas_instms': given})
    env = k.returns('constructed', env)
    n = sname('asked')
    known_ = coll.member(n)
    r = k.returns('found', k.meth(env, 'vrtn_mdl' if which == 'vrtn' else 'meas_instm', n))
    if known_:
        map_get(m, n)
        k.ensure('registered', r is objs.find(n), f'{r!r}')
        return
    if which == 'vrtn':
        x = k.real('x')
        v = k.meth(r, 'gen_env_vrtns', x, k.int('nd', 1), k.int('nc', 1), k.int('nl', 1))
        i = k.index(v.shape) if isinstance(v, ArrRef) else ()
        k.ensure('unvaried', zeq(v.at(i), x) if isinstance(v, ArrRef) else False, f'{v!r}')
    else:
        src = k.arr('true', (k.int('nv', 1),))
        v = k.meth(r, 'measure', src)
        i = k.index(src.shape)
        k.ensure('ideal', zeq(v.at(i), src.at(i)) if isinstance(v, ArrRef) and len(v.shape) == 1 else False, f'{v!r}')
