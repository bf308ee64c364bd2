"""Sample by sample evaluation of equations that only accept single values."""

import z3

from . import c07, c08, c10
from .eqn import Eqn, call_of, elem
from .kit import *  # noqa: F403
from .kit import contract, zeq

ASSUMPTIONS = ['an equation is a function of its keyword arguments; one that cannot handle arrays raises ValueError for them']


def dims3(k):
    return tuple(k.int(n, 1) for n in ('L', 'C', 'D'))


def mixed_args(k, dims, nested=True):
    """a dictionary of arguments under any names: arrays of the sample dimensions, numbers, and dictionaries of arrays and numbers"""
    sh = tuple(d.t for d in dims)

    def value(n, depth=0):
        kind = k.pick('array', 'number', *(('dict',) if nested and depth == 0 else ()))
        if kind == 'array':
            return k.arr('a', sh)
        if kind == 'number':
            return k.pick(k.real('x'), k.int('n'), Sym(k.real('f').t, ('np.float64',)))
        return k.map(k.names('sub'), lambda m: value(m, 1))

    return k.map(k.names('args'), value)


def single_calls_with_own_args(k, tag, r, dims, args, eqn):
    """every element of r is the equation applied to that sample's part of every argument"""
    ok = isinstance(r, ArrRef) and len(r.shape) == 3
    k.ensure(f'{tag}.shape', z3.And(*[dim_t(a) == b.t for a, b in zip(r.shape, dims)]) if ok else False, 'one value per sample')
    if not ok:
        raise Infeasible
    i = k.index(r.shape)
    c = call_of(rterm(r.at(i)))
    k.ensure(f'{tag}.equation', c is not None and c[0].eqn is eqn, f'element is a value of the equation: {r.at(i)!r}')
    if c is None:
        raise Infeasible
    call, at = c
    n = sname('arg')
    want = map_get(args, n)
    got = call.elem(n, at)
    same_arg(k, f'{tag}.argument', got, want, i, r.shape)


def same_arg(k, name, got, want, i, sh):
    if want is ABSENT:
        k.ensure(f'{name}.none_added', got is ABSENT, 'no argument the caller did not give')
    elif isinstance(want, MapRef):
        k.ensure(f'{name}.nested', isinstance(got, MapRef), 'a dictionary stays a dictionary')
        if isinstance(got, MapRef):
            m = sname('sub')
            same_arg(k, f'{name}.sub', map_get(got, m), map_get(want, m), i, sh)
    else:
        w = elem(want, i, sh)
        ok = is_num(got) and is_num(w)
        k.ensure(f'{name}.value', zeq(got, w) if ok else False, f'own value of the sample, got {got!r}')


@contract('C11.loop_compute', 'helpers._loop_compute')
def loop_compute(k):
    """each element is the equation applied to exactly that sample's own arguments, numbers passed through unchanged"""
    dims = dims3(k)
    args = mixed_args(k, dims)
    eqn = Eqn('f', k.names('params'), 'single', [d.t for d in dims])
    r = k.returns('returns', k.call('helpers._loop_compute', eqn, args, tuple(dims)))
    single_calls_with_own_args(k, 'value', r, dims, args, eqn)


# ---- every place that evaluates a user equation falls back to sample by sample evaluation


@contract('C11.mechanism', 'devices.MechMdl.calc_deg_vals')
def mechanism(k):
    """a mechanism equation that only accepts single values gives each sample the value of its own arguments"""
    c08.mechanism(k, ('single',))


@contract('C11.shifted', 'devices.DegPrmMdl.calc_cond_shifted_vals')
def shifted(k):
    """parameter and conditional equations that only accept single values give each measured sample its own value"""
    c07.shifted(k, ('single',))


@contract('C11.residue', 'devices.DegMechMdl.calc_equiv_strs_time')
def residue(k):
    """the residue of a mechanism equation that only accepts single values is that of each sample's own arguments"""
    c10.residue(k, ('single',))


@contract('C11.parameter', 'sim._sim_stress_step')
def parameter(k):
    """a parameter equation that only accepts single values gives each sample the value of its own arguments"""
    c08.step_prms(k, ('single',))
