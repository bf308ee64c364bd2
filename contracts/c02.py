"""Time units of mechanisms."""

import z3

from .device import Spec, mechs, some_unit
from .kit import *  # noqa: F403
from .kit import Specs, contract, zeq
from .c08 import generic_prm, stress_step
from .c01 import ALIAS
from .c01 import factor as unit_factor
from .stress import elem, factor, rec_apps

ASSUMPTIONS = ['contracts of callees in C02.applied: helpers._convert_time (C02.conversion), discharged by their own checks: DegMechMdl.calc_equiv_strs_time (C10), '
               'MechMdl.calc_deg_vals (C08), PhysTestEnv.gen_env_cond_vals (C14)']


def resolved(own, prm, dev):
    return own if own is not None else prm if prm is not None else dev if dev is not None else 'hours'


def unit_goal(got, want):
    """the unit in force (hours may be spelt 'h' or 'hours')"""
    if got is None:
        return False
    if want == 'hours':
        return z3.Or(as_z(zeq(got, 'h')), as_z(zeq(got, 'hours')))
    return zeq(got, want)


def as_z(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


@contract('C02.resolution', 'devices.DeviceMdl.__init__')
def resolution(k):
    """after construction every mechanism of every parameter works in its own, else its parameter's, else the device's unit, else hours"""
    dev_u = some_unit(k, 'dev_unit') if k.pick(True, False) else None
    specs = Specs()

    def prm(n):
        if k.pick('deg', 'circ') == 'circ':
            o = k.new('devices.CircPrmMdl', Eqnless())
            specs.add(n, Spec(kind='circ', obj=o))
            return o
        pu = some_unit(k, 'prm_unit') if k.pick(True, False) else None
        m, coll, sp = mechs(k, eqn=False)
        o = k.new('devices.DegPrmMdl', m, time_unit=pu)
        if isinstance(o, Raised):
            raise Infeasible
        specs.add(n, Spec(kind='deg', obj=o, unit=pu, mechs=m, coll=coll, spec=sp))
        return o

    coll = k.names('prms')
    prms = k.map(coll, prm)
    dev = k.returns('constructed', k.new('devices.DeviceMdl', prms, time_unit=dev_u))
    p = sname('prm')
    if not coll.member(p):
        raise Infeasible
    po = k.returns('prm_mdl', k.meth(dev, 'prm_mdl', p))
    ps = specs.find(p)
    k.ensure('own_parameter', po is ps.obj, 'the model given for the parameter')
    if ps.kind != 'deg':
        raise Infeasible
    m = sname('mech')
    if not ps.coll.member(m):
        raise Infeasible
    mo = k.returns('mech_mdl', k.meth(po, 'mech_mdl', m))
    ms = ps.spec(m)
    k.ensure('own_mechanism', mo is ms.obj, 'the model given for the mechanism')
    k.ensure('unit', unit_goal(k.get(mo, 'time_unit'), resolved(ms.own, ps.unit, dev_u)), f'unit {k.get(mo, "time_unit")!r}')


@contract('C02.single', 'devices.DegPrmMdl.__init__')
def single(k):
    """the same when a single mechanism and/or a single parameter model is handed over instead of dictionaries"""
    units = {n: some_unit(k, n) if k.pick(True, False) else None for n in ('dev', 'prm', 'own')}
    cls = k.pick('DegMechMdl', 'FailMechMdl')
    m, p = sname('mech'), sname('prm')
    k.assume(z3.And(term(m) != code(''), term(p) != code('')))
    mo = k.returns('mechanism', k.new(f'devices.{cls}', mdl_name=m, time_unit=units['own']))
    po = k.returns('parameter', k.new('devices.DegPrmMdl', mo if k.pick('one', 'dict') == 'one' else MapRef([(m, mo)]), prm_name=p, time_unit=units['prm']))
    dev = k.returns('device', k.new('devices.DeviceMdl', po if k.pick('one', 'dict') == 'one' else MapRef([(p, po)]), time_unit=units['dev']))
    got = k.returns('mech_mdl', k.meth(k.returns('prm_mdl', k.meth(dev, 'prm_mdl', p)), 'mech_mdl', m))
    k.ensure('own_mechanism', got is mo, 'the model given for the mechanism')
    k.ensure('unit', unit_goal(k.get(got, 'time_unit'), resolved(units['own'], units['prm'], units['dev'])), f'unit {k.get(got, "time_unit")!r}')


@contract('C02.applied', 'sim._sim_stress_step')
def applied(k):
    """in a stress step the duration reaches every mechanism expressed in the unit it works in"""
    w, state, report, conds, dur, envcalls, r = stress_step(k)
    k.returns('returns', r)
    p, ps = generic_prm(k, w)
    m = sname('mech')
    if not ps.coll.member(m):
        raise Infeasible
    map_get(ps.mechs, m)
    ms = ps.mech(m)
    i = k.index(ps.sh)
    after = map_get(map_get(k.get(state, 'curr_deg_mech_vals'), p), m)
    v = rterm(elem(after, i, ps.sh))
    apps = rec_apps(v, 'deg')
    k.ensure('advanced', len(apps) == 1 and apps[0][0].args['self'] is ms.obj, f'{v}')
    if len(apps) != 1:
        raise Infeasible
    c = apps[0][0]
    t = rterm(c.then(lambda: elem(c.args['times'], i, ps.sh)))
    eq = rec_apps(t, 'equiv')
    k.ensure('in_unit', t == (eq[0][2] if len(eq) == 1 else 0) + rterm(dur.s) / factor(k, ms.unit), f'time {t}')


class Eqnless:
    """a circuit equation"""

    def pyvc_params(self):
        return MapRef([])

    def pyvc_call(self, ip, args, kwargs, kwmap):
        raise Unsupported('not evaluated')


@contract('C02.conversion', 'helpers._convert_time')
def conversion(k):
    """a duration in a unit is its length divided by one of that unit"""
    u = k.pick(*ALIAS)
    s = k.real('seconds')
    r = k.returns('returns', k.call('helpers._convert_time', TD(s), u))
    k.ensure('number', rterm(r) * unit_factor(u) == s.t if is_num(r) else False, f'{r!r}')
