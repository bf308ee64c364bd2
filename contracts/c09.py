"""Hard failures."""

import z3

from .c08 import longest, mech_setup
from .kit import *  # noqa: F403
from .kit import contract, zeq
from .stress import check_args, dims3, latent_arrays, value_call

ASSUMPTIONS = [
    'equations take no latent variable or condition called "time"; mechanism values are finite',
    'contract of a callee discharged here as well: helpers._loop_compute (C11.loop_compute)',
    'a single phase is not longer than half the longest considered time (5e9 hours or more, see C08)',
]
DEPENDS = ('C11.loop_compute',)


@contract('C09.permanent', 'devices.FailMechMdl.calc_deg_vals')
def permanent(k):
    """a failed sample keeps its value whatever is applied; an unfailed one takes the equation's value for the current phase"""
    m, eqn, unit, unitary, times, pre, conds, lats, i, sh, r = mech_setup(k, 'FailMechMdl')
    if k.pick('failed', 'unfailed') == 'failed':
        k.assume(rterm(pre) != rterm(unitary))
        k.ensure('kept', zeq(r.at(i), pre), 'a failed sample keeps its value')
    else:
        k.assume(rterm(pre) == rterm(unitary))
        k.assume(rterm(times.at(i)) <= rterm(longest(unit) / 2))
        c = value_call(k, 'evaluated', r.at(i), eqn, i)
        check_args(k, 'argument', c, i, sh, {'time': times}, [lats, conds], eqn)


@contract('C09.no_memory', 'devices.FailMechMdl.calc_equiv_strs_time')
def no_memory(k):
    """the equivalent prior time of every sample of a hard failure mechanism is zero"""
    dims = dims3(k)
    sh = tuple(d.t for d in dims)
    m = k.new('devices.FailMechMdl', None, 'f', k.num('unitary'), 'h')
    if isinstance(m, Raised):
        raise Infeasible
    args = {'init_val': k.arr('init', sh), 'strs_conds': latent_arrays(k, 'conds', sh), 'latents': latent_arrays(k, 'lats', sh), 'dims': tuple(dims)}
    r = k.returns('returns', k.meth(m, 'calc_equiv_strs_time', deg_val=k.arr('deg', sh, dtype='any'), **args))
    if isinstance(r, ArrRef):
        k.ensure('shape', z3.And(*[dim_t(a) == b for a, b in zip(r.shape, sh)]) if len(r.shape) == 3 else False, 'one time per sample')
        r = r.at(k.index(sh))
    k.ensure('zero', zeq(r, 0) if is_num(r) else False, 'no memory of earlier stress')
