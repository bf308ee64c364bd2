"""What the contracts of stressing and measuring share."""

from fractions import Fraction

import z3

from .eqn import Eqn, EqnCall, elem, eqn_apps
from pyvc.ops import Frozen, felem

from .kit import *  # noqa: F403
from .kit import Specs, bind, zeq

UNITS = {'days': Fraction(86400), 'd': Fraction(86400), 'hours': Fraction(3600), 'h': Fraction(3600), 'seconds': Fraction(1), 's': Fraction(1),
         'milliseconds': Fraction(1, 1000), 'ms': Fraction(1, 1000), 'microseconds': Fraction(1, 10**6), 'us': Fraction(1, 10**6)}


def dims3(k):
    return tuple(k.int(n, 1) for n in ('L', 'C', 'D'))


def latent_arrays(k, name, sh, never=('time',)):
    """sampled values under any names (not those in never)"""
    f = z3.Function(f'in_{name}!{k.run.fresh_id()}', z3.IntSort(), z3.BoolSort())

    def member(n):
        if isinstance(n, str) and n in never:
            return False
        if not is_name(n):
            return False
        return wrap(z3.And(f(term(n)), *[term(n) != code(x) for x in never]))

    return k.map(SColl(f'{name}{k.run.fresh_id()}', member), lambda n: k.arr(name, sh))


def stub_loop_compute(k, sh=None):
    """contract of helpers._loop_compute (C11): the equation applied sample by sample to each sample's own arguments"""

    def loop(ip, f, args, kwargs, kwmap):
        b = bind(f, args, kwargs, ('eqn', 'args_dict', 'dims'))
        dims = b['dims']
        if not isinstance(dims, tuple) or len(dims) != 3:
            raise Unsupported('dimensions given to _loop_compute')
        e = b['eqn']
        if not isinstance(e, Eqn):
            raise Unsupported('equation given to _loop_compute')
        want = tuple(sh or e.dims)
        k.ensure('loop_compute.dims', z3.And(*[dim_t(ops.dim_of(a)) == c for a, c in zip(dims, want)]), 'evaluated for every sample')
        run = cur()
        c = EqnCall(e, tuple(b['args_dict'].st), e.dims)
        c.loop = True
        run.extra['eqn'] = (*run.extra.get('eqn', ()), c)
        g = z3.Function(f'eqn!{e.tag}!{c.uid}', *([z3.IntSort()] * 3), z3.RealSort())
        c.f, c.single = g, False
        return ArrRef(want, lambda idx: Sym(g(*[dim_t(i) for i in idx]), T_FLOAT))

    k.ip.stubs['helpers._loop_compute'] = loop


def orig(a, i):
    """element of an array the contract handed in, as it was handed in"""
    sh, fn = a.init
    return fn(tuple(i))


def orig_get(m, n):
    """entry of a dictionary the contract handed in, as it was handed in"""
    return map_get(None, n, m.init)


def orig_elem(v, i, sh):
    if isinstance(v, ArrRef) and len(v.init[0]) == len(i):
        return orig(v, i)
    return felem(Frozen(*v.init), tuple(i), tuple(sh)) if isinstance(v, ArrRef) else v


def value_call(k, name, val, eqn, i):
    """the value is one of the equation for sample i: its call"""
    t = rterm(val)
    cands = [(c, at, app) for c, at, app in eqn_apps(t) if c.eqn is eqn and (at is None or all(z3.eq(dim_t(a), dim_t(b)) for a, b in zip(at, i)))]
    for c, at, app in cands:
        if k.run.valid(t == app):
            k.ensure(name, True)
            return c
    if cands:
        k.ensure(name, t == cands[0][2], 'value of the equation for this sample')
    else:
        k.ensure(name, False, f'the value is not one of the equation: {t}')
    raise Infeasible


def fits(k, name, c, n):
    """an argument of a call on whole arrays has the shape of the samples (or is one value for all along a dimension)"""
    v = c.arg(n)
    if c.loop or not isinstance(v, ArrRef):
        return
    sh = in_view(c.snap, lambda: v.shape)
    goal = [z3.Or(dim_t(a) == 1, dim_t(a) == dim_t(b)) for a, b in zip(reversed(sh), reversed(c.dims))]
    k.ensure(name, z3.And(*goal) if len(sh) <= len(c.dims) else False, f'shape {sh} of argument {n!r} for samples of shape {c.dims}')


def check_args(k, name, c, i, sh, fixed, sources, eqn, n=None):
    """the call saw, for sample i, the fixed arguments and every parameter of the equation from the first source that has it"""
    n = n if n is not None else sname('arg')
    for key, want in fixed.items():
        if key_eq_decide(n, key):
            got = c.elem(key, i)
            fits(k, f'{name}.shape', c, key)
            w = orig_elem(want, i, sh)
            k.ensure(f'{name}.{key}', zeq(got, w) if is_num(got) else False, f'{key} passed to the equation: {got!r}')
            return
    want = ABSENT
    if eqn.params.member(n):
        for s in sources:
            want = orig_get(s, n)
            if want is not ABSENT:
                break
    got = c.elem(n, i)
    if want is ABSENT:
        k.ensure(f'{name}.none_added', got is ABSENT, f'only parameters of the equation with a value are passed, got {got!r}')
    else:
        fits(k, f'{name}.shape', c, n)
        w = orig_elem(want, i, sh)
        k.ensure(f'{name}.value', zeq(got, w) if is_num(got) else False, f'own value of the sample: {got!r}')


def same_map(k, name, got, want, i, sh, rec=None):
    """two dictionaries of sampled values agree for sample i under any name"""
    if not isinstance(got, MapRef):
        k.ensure(name, False, f'not a dictionary: {got!r}')
        return
    n = sname('name')
    a, b = map_get(got, n), orig_get(want, n)
    if a is ABSENT or b is ABSENT:
        k.ensure(name, a is b, 'the same names')
    else:
        a, b = elem(a, i, sh), orig_elem(b, i, sh)
        k.ensure(name, zeq(a, b) if is_num(a) and is_num(b) else False, f'{a!r} instead of {b!r}')


# ------------------------------------------------------------------------------------------- a device of any size and its state
class Rec:
    """a call of a stubbed function: its arguments and the heap at that time"""

    def __init__(self, tag, args, shape):
        run = cur()
        self.tag, self.args, self.snap, self.uid = tag, args, run.snap(), run.fresh_id()
        self.f = z3.Function(f'rec!{tag}!{self.uid}', *([z3.IntSort()] * len(shape)), z3.RealSort())
        self.shape = tuple(shape)
        run.extra['rec'] = (*run.extra.get('rec', ()), self)

    def array(self):
        return ArrRef(self.shape, lambda idx: Sym(self.f(*[dim_t(i) for i in idx]), T_FLOAT))

    def then(self, fn):
        """evaluate at the time of the call"""
        return in_view(self.snap, fn)


def rec_apps(t, tag):
    by = {f'rec!{c.tag}!{c.uid}': c for c in cur().extra.get('rec', ()) if c.tag == tag}
    out, seen, todo = [], set(), [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().name() in by:
            out.append((by[e.decl().name()], tuple(e.children()), e))
        todo.extend(e.children())
    return out


FACTOR = z3.Function('unit_seconds', z3.IntSort(), z3.RealSort())


def stub_convert_time(k):
    """contract of helpers._convert_time (C01): a duration becomes its number of units"""

    def conv(ip, f, args, kwargs, kwmap):
        t, u = args[0], (args[1] if len(args) > 1 else kwargs.get('units'))
        if isinstance(t, TD) and u is None:
            return wrap(rterm(t.s) / 3600, T_FLOAT)
        if not isinstance(t, TD) or not is_name(u):
            raise Unsupported('time conversion of this kind')
        return wrap(rterm(t.s) / FACTOR(term(u)), T_FLOAT)

    k.ip.stubs['helpers._convert_time'] = conv


def factor(k, unit):
    k.assume(FACTOR(term(unit)) > 0)
    return FACTOR(term(unit))


class World:
    """a device with any number of degraded and circuit parameters, each with any mechanisms, and a simulation state for it"""

    def __init__(self, k, modes=('array', 'single', 'number'), circ=True, cond_eqn=False, measured=None):
        from .device import Spec, some_unit

        self.k = k
        self.L, self.C = k.int('L', 1), k.int('C', 1)
        self.dfun = z3.Function(f'ndev!{k.run.fresh_id()}', z3.IntSort(), z3.IntSort())
        self.specs = Specs()
        self.modes, self.cond_eqn = modes, cond_eqn
        self.measured = measured
        RES = ('cond', 'init', 'time')

        def not_reserved(coll):
            old = coll._member

            def member(n):
                if isinstance(n, str):
                    return False if n in RES else old(n)
                r = old(n)
                return r if isinstance(r, bool) else wrap(z3.And(r.t, *[term(n) != code(x) for x in RES]))

            coll._member = member
            return coll

        def mech(n, sh, lst):
            cls = k.pick('DegMechMdl', 'FailMechMdl')
            unit = some_unit(k, 'unit')
            o = k.new(f'devices.{cls}', None, None, k.num('unitary'), unit)
            if isinstance(o, Raised):
                raise Infeasible
            with k.region('state'):
                lst.add(n, Spec(cls=cls, unit=unit, obj=o, unitary=k.get(o, 'unitary'), lats=latent_arrays(k, 'mlat', sh),
                                curr=k.arr('mcurr', sh, dtype='any'), init=k.arr('minit', sh, dtype='any')))
            return o

        def prm(n):
            sh = self.shape(n)
            msh = self.measured(self, n) if self.measured else sh
            eqn = Eqn('prm', k.names('pparams'), k.pick(*self.modes), msh)
            if circ and k.pick('deg', 'circ') == 'circ':
                o = k.new('devices.CircPrmMdl', eqn)
                with k.region('state'):
                    own = latent_arrays(k, 'plat', sh, RES)
                self.specs.add(n, Spec(kind='circ', obj=o, eqn=eqn, own=own, lats=own, sh=sh, msh=msh))
                return o
            lst = Specs()
            coll = not_reserved(k.names('mechs'))
            mm = k.map(coll, lambda m: mech(m, sh, lst))
            ceqn = Eqn('cond', k.names('cparams'), k.pick(*self.modes), msh) if self.cond_eqn else None
            cm = k.new('devices.CondShiftMdl', ceqn, None, k.num('cunit')) if ceqn is not None else k.new('devices.CondShiftMdl', unitary_val=k.num('cunit'))
            if isinstance(cm, Raised):
                raise Infeasible
            o = k.new('devices.DegPrmMdl', mm, cond_shift_mdl=cm, compute_eqn=eqn, time_unit=some_unit(k, 'punit'))
            if isinstance(o, Raised):
                raise Infeasible
            look = lst.find
            with k.region('state'):
                field = lambda f: k.map(coll, lambda x: (map_get(mm, x), getattr(look(x), f))[1])  # noqa: E731
                own = latent_arrays(k, 'plat', sh, RES)
                clat = latent_arrays(k, 'clat', sh)
                lats = MapRef(layers=(('base', own.st[0][1]), ('base', field('lats').st[0][1]), ('set', 'cond', clat)))
                self.specs.add(n, Spec(kind='deg', obj=o, eqn=eqn, ceqn=ceqn, cond=cm, coll=coll, mechs=mm, mech=look, own=own, clat=clat, lats=lats, sh=sh, msh=msh,
                                           curr_m=field('curr'), init_m=field('init'), curr=k.arr('pcurr', sh, dtype='any'), init=k.arr('pinit', sh, dtype='any')))
            return o

        self.coll = k.names('prms')
        with k.region('device'):
            self.prms = k.map(self.coll, prm)

    def spec(self, n):
        map_get(self.prms, n)
        return self.specs.find(n)

    def count(self, n):
        d = self.dfun(term(n))
        self.k.run.fact(d >= 1)
        return d

    def shape(self, n):
        return (self.L.t, self.C.t, self.count(n))

    def field(self, f, degraded=False):
        def member(n):
            if not self.coll.member(n):
                return False
            return not degraded or self.spec(n).kind == 'deg'

        return self.k.map(SColl(f'w{self.k.run.fresh_id()}', member), lambda n: getattr(self.spec(n), f))

    def device(self):
        with self.k.region('device'):
            d = self.k.new('devices.DeviceMdl', self.prms)
        if isinstance(d, Raised):
            raise Infeasible
        return d

    def state(self, elapsed):
        k = self.k
        with k.region('state'):
            s = k.new('states.SimState', self.field('init', True), self.field('init_m', True), self.field('lats'), TD(elapsed))
            if isinstance(s, Raised):
                raise Infeasible
            k.set(s, 'curr_prm_vals', self.field('curr', True))
            k.set(s, 'curr_deg_mech_vals', self.field('curr_m', True))
        return s

    def report(self):
        k = self.k
        with k.region('report'):
            r = k.new('reports.SimReport')
            if isinstance(r, Raised):
                raise Infeasible
            for f, v in (('num_lots', self.L), ('num_chps', self.C), ('dev_counts', k.map(self.coll, lambda n: Sym(self.count(n), T_INT)))):
                k.set(r, f, v)
            k.set(r, 'measurements', FrameRef(()))
            k.set(r, 'test_summary', FrameRef(()))
        return r
