"""User supplied equations: unknown functions of their keyword arguments.

Every call of an equation is recorded with its arguments.  Two evaluations agree when their arguments agree, so a contract states
which arguments (per sample) the value at a position was computed from.
"""

import z3

from pyvc import ops
from pyvc.core import Infeasible, Unsupported, cur
from pyvc.ops import bshape, dim_t, felem, frozen, same_dim
from pyvc.values import *  # noqa: F403
from pyvc.values import ABSENT, T_FLOAT


class EqnCall:
    def __init__(self, eqn, layers, dims):
        self.eqn, self.layers, self.dims = eqn, layers, dims
        self.snap = cur().snap()
        self.uid = cur().fresh_id()
        self.f = None
        self.loop = False

    def arg(self, name):
        """the argument passed under that name (ABSENT when none was), as it was at the time of the call"""
        return map_get(None, name, self.layers)

    def elem(self, name, idx):
        """what the evaluation of sample idx sees under that name"""
        return in_view(self.snap, lambda: elem(self.arg(name), idx, self.dims))


def elem(v, idx, dims):
    """one sample's part of an argument"""
    if isinstance(v, ArrRef):
        if not v.shape:
            return v.at(())
        if idx is None:
            return v
        if len(v.shape) > len(idx):
            raise Unsupported('argument with more dimensions than the samples')
        return felem(frozen(v), tuple(idx), tuple(dims))
    return v


class Eqn:
    """mode 'array': handles arrays; 'single': only single values (ValueError on arrays); 'number': ignores arrays, gives one number"""

    def __init__(self, tag, params, mode, dims, probe=None, always=False):
        self.tag, self.params, self.mode, self.dims = tag, params, mode, tuple(dims)
        self.probe, self.always = probe, always  # always: at least one argument is an array
        self.uid = cur().fresh_id()

    def pyvc_params(self):
        return MapRef(layers=(('base', MapBase(self.params, lambda n: 'param')),))

    def pyvc_same(self, other):
        return other is self

    def pyvc_call(self, ip, args, kwargs, kwmap):
        run = cur()
        if args:
            raise Unsupported('equation called with positional arguments')
        layers = tuple(kwmap.st) if kwmap is not None else ()
        layers = (*layers, *[('set', k, v) for k, v in kwargs.items()])
        c = EqnCall(self, layers, self.dims)
        has_array = self.always or any(L[0] == 'set' and isinstance(L[2], ArrRef) and len(L[2].shape) > 0 for L in layers)
        if not has_array and self.probe is not None:
            for nm in self.probe:
                v = map_get(None, nm, layers)
                if isinstance(v, ArrRef) and len(v.shape) > 0:
                    has_array = True
        run.extra['eqn'] = (*run.extra.get('eqn', ()), c)
        if has_array and self.mode == 'single':
            raise PyExc(ValueError)
        if not has_array or self.mode == 'number':
            c.f = z3.Real(f'eqn!{self.tag}!{c.uid}')
            c.single = True
            return Sym(c.f, T_FLOAT)
        f = z3.Function(f'eqn!{self.tag}!{c.uid}', *([z3.IntSort()] * len(self.dims)), z3.RealSort())
        c.f, c.single = f, False
        return ArrRef(self.dims, lambda idx: Sym(f(*[dim_t(i) for i in idx]), T_FLOAT))


def call_of(t):
    """(call, index of the sample) when the term is the value of an equation, else None"""
    t = z3.simplify(t) if not isinstance(t, z3.ExprRef) else t
    if not z3.is_app(t):
        return None
    name = t.decl().name()
    for c in cur().extra.get('eqn', ()):
        if c.f is None:
            continue
        if name == f'eqn!{c.eqn.tag}!{c.uid}':
            return c, (None if c.single else tuple(t.children()))
    return None


def eqn_apps(t):
    """applications of equations inside a term: (call, sample index or None, term)"""
    by = {f'eqn!{c.eqn.tag}!{c.uid}': c for c in cur().extra.get('eqn', ()) if c.f is not None}
    out, seen, todo = [], set(), [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().name() in by:
            c = by[e.decl().name()]
            out.append((c, None if c.single else tuple(e.children()), e))
        todo.extend(e.children())
    return out
