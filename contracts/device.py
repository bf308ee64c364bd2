"""Device models of any size: any number of parameters, each with any number of mechanisms, built by the real constructors."""

import z3

from .eqn import Eqn
from .kit import *  # noqa: F403
from .kit import Specs, zeq


def some_unit(k, name):
    """a non-empty unit name"""
    u = sname(name)
    k.assume(u.t != code(''))
    return u


class Spec:
    """what the contract knows about an object it handed in"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def free_latents(k, *classes):
    """any number of latent variables under any names that are not arguments of the constructors of these classes"""
    never = {a.arg for c in (*classes, 'LatentMdl') for q in [k.ip.resolve(f'devices.{c}.__init__').node.args] for a in [*q.args, q.kwarg] if a}
    f = z3.Function(f'in_lats!{k.run.fresh_id()}', z3.IntSort(), z3.BoolSort())
    objs = Specs()

    def member(n):
        if not is_name(n) or isinstance(n, str) and n in never:
            return False
        return wrap(z3.And(f(term(n)), *[term(n) != code(x) for x in never]))

    def make(n):
        o = k.new('devices.LatentVar', deter_val=k.num('base'))
        if isinstance(o, Raised):
            raise Infeasible
        objs.add(n, o)
        return o

    coll = SColl(f'lats{k.run.fresh_id()}', member)
    return k.map(coll, make), coll, objs


def mechs(k, dims=None, units=True, modes=('array',), classes=('DegMechMdl', 'FailMechMdl'), eqn=True, subclass=False):
    """a dictionary of mechanism models under any names; .spec(name) gives what was chosen for a name"""
    chosen = Specs()

    def make(n):
        cls = k.pick(*classes)
        own = some_unit(k, 'mech_unit') if units and k.pick(True, False) else None
        unitary = k.num('unitary')
        e = Eqn('mech', k.names('mech_params'), k.pick(*modes), dims or ()) if eqn else None
        o = k.new(f'devices.{cls}', e, None, unitary, own) if e is not None else k.new(f'devices.{cls}', unitary_val=unitary, time_unit=own)
        if isinstance(o, Raised):
            raise Infeasible
        chosen.add(n, Spec(cls=cls, own=own, unitary=unitary, eqn=e, obj=o))
        return o

    coll = k.names('mechs')
    m = k.map(coll, make)
    return m, coll, chosen.find
