"""A parameter with the equations the library supplies: sum of the components, no degradation, no conditional shift."""

import z3

from .kit import *  # noqa: F403
from .eqn import elem
from .kit import Specs, bind, zeq
from .stress import *  # noqa: F403

NAMES = ('wearout', 'trap', 'open')


class Default:
    """a parameter of one to three mechanisms whose equation is the default one"""

    def __init__(self, k):
        self.k = k
        self.dims = dims3(k)
        self.sh = tuple(d.t for d in self.dims)
        self.cunit = k.num('cunit')
        self.units = {}

        def mech(n):
            u = k.num('unitary')
            o = k.new(f"devices.{k.pick('DegMechMdl', 'FailMechMdl')}", None, None, u, 'h')
            if isinstance(o, Raised):
                raise Infeasible
            self.units[n] = u
            return o

        with k.region('device'):
            self.names = NAMES[: k.pick(1, 2, 3)]
            self.mechs = MapRef([(n, mech(n)) for n in self.names])
            cm = k.new('devices.CondShiftMdl', unitary_val=self.cunit)
            self.obj = k.new('devices.DegPrmMdl', self.mechs, cond_shift_mdl=cm)
        if isinstance(self.obj, Raised) or isinstance(cm, Raised):
            raise Infeasible

    def per_mech(self, name):
        """sampled values of every mechanism"""
        k = self.k
        return MapRef([(n, k.arr(name, self.sh, dtype='any')) for n in self.names])


def stub_deg(k):
    """contract of the mechanisms (C08.mechanism, C09.permanent): some value per sample"""

    def deg(ip, f, args, kwargs, kwmap):
        b = bind(f, args, kwargs, ('times', 'pre_deg_vals', 'strs_conds', 'latents', 'dims'), True)
        return Rec('deg', {**b, 'self': args[0]}, tuple(dim_t(ops.dim_of(d)) for d in b['dims'])).array()

    for c in ('MechMdl', 'DegMechMdl', 'FailMechMdl'):
        k.ip.stubs[f'devices.{c}.calc_deg_vals'] = deg


def total(vals):
    r = z3.RealVal(0)
    for v in vals:
        r = r + rterm(v)
    return r


def default_degradation(k):
    """with the default equation the true value is the initial value plus the no-shift value plus the sum of the mechanism values"""
    d = Default(k)
    stub_deg(k)
    times, deg = d.per_mech('times'), d.per_mech('deg')
    with k.region('state'):
        init = k.arr('init', d.sh, dtype='any')
    i = k.index(d.sh)
    first = init.at(i)
    lats = MapRef([*[(n, latent_arrays(k, 'lat', d.sh)) for n in d.names], ('cond', latent_arrays(k, 'clat', d.sh))])
    r = k.returns('returns', k.meth(d.obj, 'calc_deg_vals', tuple(d.dims), times, latent_arrays(k, 'conds', d.sh), init, lats, deg))
    if not isinstance(r, tuple) or len(r) != 2:
        k.ensure('pair', False, f'{r!r}')
        raise Infeasible
    recs = {k.get(c.args['self'], 'name'): c for c in k.run.extra.get('rec', ())}
    k.ensure('each_mechanism', set(recs) == set(d.names), f'{sorted(map(str, recs))}')
    if set(recs) != set(d.names):
        raise Infeasible
    each = {n: Sym(recs[n].f(*[dim_t(x) for x in i]), T_FLOAT) for n in d.names}
    v = r[0].at(i) if isinstance(r[0], ArrRef) else r[0]
    k.ensure('sum', rterm(v) == rterm(first) + rterm(d.cunit) + total(each.values()) if is_num(v) else False, f'initial value + no shift + mechanisms: {v!r}')
    for n in d.names:
        a = map_get(r[1], n)
        a = a.at(i) if isinstance(a, ArrRef) else a
        k.ensure('mechanism', zeq(a, each[n]) if is_num(a) else False, f'value of the mechanism itself: {a!r}')
    k.ensure('initial_kept', zeq(init.at(i), first), 'the initial values stay what they are')


def default_measurement(k):
    """with the default equations the measured true value is the current value plus the no-effect values"""
    d = Default(k)
    m = k.int('M', 1)
    k.assume(m.t <= d.dims[2].t)
    msh = (d.sh[0], d.sh[1], m.t)
    with k.region('state'):
        curr = k.arr('curr', d.sh, dtype='any')
    i = k.index(msh)
    first = curr.at(i)
    lats = MapRef([*[(n, latent_arrays(k, 'lat', d.sh)) for n in d.names], ('cond', latent_arrays(k, 'clat', d.sh))])
    dims = (d.dims[0], d.dims[1], m)
    shift, own = d.cunit, None
    if k.pick('no shift', 'shift') == 'shift':
        # a conditional shift may hand out values it goes on using, such as a latent value
        with k.region('state'):
            own = k.arr('shift', msh, dtype='any')
        shift = own.at(i)
        k.ip.stubs['devices.CondShiftMdl.calc_cond_vals'] = lambda ip, f, args, kwargs, kwmap: own
    r = k.returns('returns', k.meth(d.obj, 'calc_cond_shifted_vals', dims, latent_arrays(k, 'conds', msh), curr, lats))
    v = r.at(i) if isinstance(r, ArrRef) else r
    k.ensure('sum', rterm(v) == rterm(first) + rterm(shift) + total(d.units.values()) if is_num(v) else False, f'current value + no-effect values: {v!r}')
    if own is not None:
        k.ensure('shift_kept', zeq(own.at(i), shift), 'the values of the shift stay what they are')
    k.ensure('current_kept', zeq(curr.at(i), first), 'the current values stay what they are')


class AnyNumber:
    """a parameter of any number of mechanisms whose equation is the default one"""

    def __init__(self, k):
        self.k = k
        self.dims = dims3(k)
        self.sh = tuple(d.t for d in self.dims)
        self.cunit = k.num('cunit')
        self.specs = Specs()

        def mech(n):
            u = k.num('unitary')
            o = k.new(f"devices.{k.pick('DegMechMdl', 'FailMechMdl')}", None, None, u, 'h')
            if isinstance(o, Raised):
                raise Infeasible
            self.specs.add(n, (o, u))
            return o

        self.coll = k.names('mechs')
        with k.region('device'):
            self.mechs = k.map(self.coll, mech)
            cm = k.new('devices.CondShiftMdl', unitary_val=self.cunit)
            self.obj = k.new('devices.DegPrmMdl', self.mechs, cond_shift_mdl=cm)
        if isinstance(self.obj, Raised) or isinstance(cm, Raised):
            raise Infeasible
        self.key = ('sums', k.run.fresh_id())
        k.ip.sum_hook = self.sum

    def sum(self, ip, coll, start):
        """sum() over the values of a collection: one value per position, a function of the addends"""
        f = z3.Function(f'sum!{cur().fresh_id()}', *([z3.IntSort()] * 3), z3.RealSort())
        cur().extra[self.key] = (*cur().extra.get(self.key, ()), (f, coll))
        arr = ArrRef(self.sh, lambda idx: Sym(f(*[dim_t(x) for x in idx]), T_FLOAT))
        return arr if isinstance(start, int) and start == 0 else ops.binop(__import__('ast').Add(), start, arr)

    def check(self, name, v, rest, i, addend):
        """v == rest + the sum over all mechanisms n of addend(n), at position i"""
        k = self.k
        sums = cur().extra.get(self.key, ())
        if len(sums) != 1:
            raise Unsupported('the mechanisms are added up in another way')
        f, coll = sums[0]
        k.ensure(name, rterm(v) == rest + f(*[dim_t(x) for x in i]) if is_num(v) else False, f'the sum of the components: {v!r}')
        n = sname('mech')
        a, b = coll.member(n), self.coll.member(n)
        k.ensure(f'{name}.mechanisms', a == b, 'exactly the mechanisms of the parameter are added up')
        if not (a and b):
            raise Infeasible
        map_get(self.mechs, n)
        x = coll.elem(n)
        if isinstance(x, ArrRef):
            if len(x.shape) != 3:
                raise Unsupported('shape of an addend')
            k.ensure(f'{name}.shape', z3.And(*[z3.Or(dim_t(p) == dim_t(q), dim_t(p) == 1) for p, q in zip(x.shape, self.sh)]), 'one value per sample')
            x = elem(x, i, self.sh)
        k.ensure(f'{name}.addend', zeq(x, addend(n)) if is_num(x) else False, f'each mechanism adds its own value: {x!r}')


def default_degradation_any(k):
    """the same for any number of mechanisms, added up by sum()"""
    d = AnyNumber(k)
    stub_deg(k)
    times, deg = (k.map(d.coll, lambda n, t=t: k.arr(t, d.sh, dtype='any')) for t in ('times', 'deg'))
    with k.region('state'):
        init = k.arr('init', d.sh, dtype='any')
    i = k.index(d.sh)
    first = init.at(i)
    lats = k.map(SColl(f'lats{k.run.fresh_id()}', lambda n: n == 'cond' if isinstance(n, str) and n == 'cond' else d.coll.member(n)), lambda n: latent_arrays(k, 'lat', d.sh))
    r = k.returns('returns', k.meth(d.obj, 'calc_deg_vals', tuple(d.dims), times, latent_arrays(k, 'conds', d.sh), init, lats, deg))
    if not isinstance(r, tuple) or len(r) != 2:
        k.ensure('pair', False, f'{r!r}')
        raise Infeasible
    v = r[0].at(i) if isinstance(r[0], ArrRef) else r[0]

    def own(n):
        o = d.specs.find(n)[0]
        a = map_get(r[1], n)
        a = a.at(i) if isinstance(a, ArrRef) else a
        apps = rec_apps(rterm(a), 'deg') if is_num(a) else ()
        k.ensure('mechanism', len(apps) == 1 and apps[0][0].args['self'] is o and z3.eq(apps[0][2], rterm(a)), f'value of the mechanism itself: {a!r}')
        return a

    d.check('sum', v, rterm(first) + rterm(d.cunit), i, own)
    k.ensure('initial_kept', zeq(init.at(i), first), 'the initial values stay what they are')


def default_measurement_any(k):
    """the same for any number of mechanisms, added up by sum()"""
    d = AnyNumber(k)
    m = k.int('M', 1)
    k.assume(m.t <= d.dims[2].t)
    full, d.sh = d.sh, (d.sh[0], d.sh[1], m.t)
    with k.region('state'):
        curr = k.arr('curr', full, dtype='any')
    i = k.index(d.sh)
    first = curr.at(i)
    lats = k.map(SColl(f'lats{k.run.fresh_id()}', lambda n: n == 'cond' if isinstance(n, str) and n == 'cond' else d.coll.member(n)), lambda n: latent_arrays(k, 'lat', full))
    r = k.returns('returns', k.meth(d.obj, 'calc_cond_shifted_vals', (d.dims[0], d.dims[1], m), latent_arrays(k, 'conds', d.sh), curr, lats))
    v = r.at(i) if isinstance(r, ArrRef) else r
    d.check('sum', v, rterm(first) + rterm(d.cunit), i, lambda n: d.specs.find(n)[1])
    k.ensure('current_kept', zeq(curr.at(i), first), 'the current values stay what they are')


def default_mechanism(k):
    """a mechanism without an equation never degrades"""
    dims = dims3(k)
    sh = tuple(x.t for x in dims)
    unitary = k.num('unitary')
    cls = k.pick('DegMechMdl', 'FailMechMdl')
    with k.region('device'):
        m = k.returns('constructed', k.new(f'devices.{cls}', None, 'm', unitary, 'h'))
    times, pre = k.arr('times', sh), k.arr('pre', sh, dtype='any')
    i = k.index(sh)
    k.assume(rterm(pre.at(i)) == rterm(unitary))
    k.assume(rterm(times.at(i)) >= 0)
    r = k.returns('returns', k.meth(m, 'calc_deg_vals', times, pre, latent_arrays(k, 'conds', sh), latent_arrays(k, 'lats', sh), tuple(dims)))
    v = r.at(i) if isinstance(r, ArrRef) else r
    k.ensure('unchanged', zeq(v, unitary) if is_num(v) else False, f'the no-effect value: {v!r}')
