"""Random device models with recorded equations, tests that snapshot the state between steps, and per-step oracles."""

from __future__ import annotations

import copy
import inspect
import sys
from datetime import timedelta

import numpy as np

from bounded import lib
from bounded.gen import pick, CONDS

lib.load()
from gerabaldi import simulate, gen_init_state  # noqa: E402
from gerabaldi.models import (  # noqa: E402
    LatentVar, InitValMdl, CondShiftMdl, DegMechMdl, FailMechMdl, DegPrmMdl, CircPrmMdl, DeviceMdl, TestSpec, StrsSpec,
    MeasSpec, PhysTestEnv, SimState, Normal, Uniform,
)  # fmt: skip

UNIT_S = {'days': 86400.0, 'hours': 3600.0, 'seconds': 1.0, 'h': 3600.0, 'd': 86400.0, 's': 1.0, None: 3600.0}


class Eqn:
    """A user equation with an explicit signature; optionally one that only accepts single values."""

    def __init__(self, args, fn, scalar=False, kwonly=False):
        self.fn, self.scalar, self.calls, self.args = fn, scalar, [], list(args)
        kind = inspect.Parameter.KEYWORD_ONLY if kwonly else inspect.Parameter.POSITIONAL_OR_KEYWORD
        self.__signature__ = inspect.Signature([inspect.Parameter(a, kind) for a in args])
        self.__name__ = 'eqn'

    def __call__(self, *a, **k):
        kw = self.__signature__.bind(*a, **k).arguments
        if self.scalar:
            for v in kw.values():
                if isinstance(v, np.ndarray) and v.size > 1:
                    raise ValueError('The truth value of an array with more than one element is ambiguous.')
            kw = {n: (v.item() if isinstance(v, np.ndarray) else v) for n, v in kw.items()}
        self.calls.append({n: np.array(v, dtype=float) for n, v in kw.items()})
        return self.fn(**kw)

    def __deepcopy__(self, memo):
        return self


class Mech:
    def __init__(self, name, kind, eqn, unitary, unit, latents, thr=None):
        self.name, self.kind, self.eqn, self.unitary, self.unit, self.latents, self.thr = name, kind, eqn, unitary, unit, latents, thr


class Prm:
    pass


def latent_vars(rng, names, lo=0.8, hi=1.2):
    out = {}
    for n in names:
        k = int(rng.integers(4))
        if k == 0:
            out[n] = LatentVar(deter_val=float(rng.uniform(lo, hi)))
        elif k == 1:
            out[n] = LatentVar(Uniform(lo, hi, test_seed=int(rng.integers(10**6))))
        elif k == 2:
            out[n] = LatentVar(Uniform(lo, hi, test_seed=int(rng.integers(10**6))), Uniform(0.97, 1.03, test_seed=int(rng.integers(10**6))), Uniform(0.98, 1.02, test_seed=int(rng.integers(10**6))), vrtn_type='scaling')
        else:
            out[n] = LatentVar(Uniform(-0.05, 0.05, test_seed=int(rng.integers(10**6))), Uniform(-0.02, 0.02, test_seed=int(rng.integers(10**6))), deter_val=1.0, vrtn_type='offset')
    return out


def mk_mech(rng, name, conds, tag, scalar=False, kinds=('deg', 'deg', 'fail', 'sat', 'thr')):
    kind = pick(rng, list(kinds))
    unit = pick(rng, ['hours', 'h', 'seconds', 'days', None])
    use = pick(rng, conds, int(rng.integers(0, min(len(conds), 2) + 1)))
    lats = [f'{tag}{name}_l{i}' for i in range(int(rng.integers(1, 3)))]
    coef = {c: float(rng.uniform(0.3, 1.5)) for c in use}
    scale, n = float(rng.uniform(0.5, 2)), float(rng.uniform(0.25, 1.0))
    unitary = pick(rng, [0, 0, 1, 1, 0.5])

    def g(kw):
        r = scale
        for c in use:
            r = r * (1 + coef[c] * kw[c])
        for l in lats:
            r = r * kw[l]
        return r

    thr = None
    if kind == 'deg':
        fn = lambda **kw: unitary + g(kw) * (kw['time'] / 100.0) ** n  # noqa: E731
    elif kind == 'sat':
        # saturating: attains at most g(conditions), so stronger earlier stress may have no equivalent time
        fn = lambda **kw: unitary + g(kw) * (1 - (1 + kw['time'] / 200.0) ** -0.3)  # noqa: E731
    elif kind == 'thr':
        # threshold: no degradation at all under weak conditions
        thr = float(rng.uniform(0.8, 2)) * scale
        fn = lambda **kw: unitary + np.where(g(kw) > thr, g(kw), 0.0) * (kw['time'] / 100.0) ** n  # noqa: E731
    else:
        thr = float(rng.uniform(1, 3)) * scale
        fv = unitary + pick(rng, [1.0, -2.0, 5.0])
        fn = lambda **kw: np.where(g(kw) > thr, fv + 0.1 * np.minimum(kw['time'], 50.0) * g(kw), unitary) + 0.0 * kw['time']  # noqa: E731
    order = ['time'] + use + lats
    order = [order[int(i)] for i in rng.permutation(len(order))]
    eqn = Eqn(order, fn, scalar)
    lv = latent_vars(rng, lats)
    cls = FailMechMdl if kind == 'fail' else DegMechMdl
    mdl = cls(eqn, unitary_val=unitary, time_unit=unit, **lv)
    m = Mech(name, kind, eqn, unitary, unit, lats, thr)
    m.use = use
    return m, mdl


def mk_prm(rng, name, conds, scalar_p=0.0, kinds=('deg', 'deg', 'fail', 'sat', 'thr')):
    p = Prm()
    p.name, p.mechs = name, []
    sc = lambda: bool(rng.random() < scalar_p)  # noqa: E731
    mdls = {}
    for mn in pick(rng, ['mx', 'my', 'mz'], int(rng.integers(1, 4))):
        m, mdl = mk_mech(rng, mn, conds, name, sc(), kinds)
        p.mechs.append(m)
        mdls[mn] = mdl
    # initial value model
    il = [f'{name}_i{k}' for k in range(int(rng.integers(1, 3)))]
    p.init_lats = il
    p.init_eqn = Eqn(il, lambda **kw: 10.0 * sum(kw.values()))
    init = InitValMdl(p.init_eqn, **latent_vars(rng, il))
    # conditional shift
    p.cond_unitary = 0
    if rng.random() < 0.8:
        cu = pick(rng, conds, int(rng.integers(0, min(len(conds), 2) + 1)))
        cl = [f'{name}_c{k}' for k in range(int(rng.integers(0, 2)))]
        cc = float(rng.uniform(0.1, 1))
        p.cond_unitary = pick(rng, [0, 1])
        cun = p.cond_unitary
        p.cond_eqn = Eqn(cu + cl, lambda **kw: cun + cc * sum(list(kw.values()), 0.0), sc())
        p.cond_use = cu
        cond = CondShiftMdl(p.cond_eqn, unitary_val=cun, **latent_vars(rng, cl))
    else:
        p.cond_eqn, p.cond_use, cond = None, [], None
    # parameter equation
    pl = [f'{name}_p{k}' for k in range(int(rng.integers(0, 2)))]
    p.prm_lats = pl
    mn = [m.name for m in p.mechs]
    k = int(rng.integers(3))
    if k == 0 and not pl and p.cond_unitary == 0:
        p.eqn = None
        compute = None
    else:
        w = {m: float(rng.uniform(0.5, 2)) for m in mn}
        ul = {m.name: m.unitary for m in p.mechs}
        cun = p.cond_unitary

        def fn(**kw):
            r = kw['init'] * (1.0 + 0.25 * (kw['cond'] - cun))
            for m in mn:
                r = r + w[m] * (kw[m] - ul[m]) * (kw[pl[0]] if pl else 1.0)
            return r

        order = ['init', 'cond'] + mn + pl
        order = [order[int(i)] for i in rng.permutation(len(order))]
        p.eqn = Eqn(order, fn, sc())
        compute = p.eqn
    kw = {}
    if compute is not None:
        kw['compute_eqn'] = compute
    mdl = DegPrmMdl(mdls, init, cond, time_unit=None, **kw, **latent_vars(rng, pl))
    return p, mdl


def prm_value(p, init, cond, mechs, lats):
    """parameter equation applied to the given arguments (pure reference, no recording)"""
    if p.eqn is None:
        return init + cond + sum(mechs.values())
    return p.eqn.fn(init=init, cond=cond, **mechs, **{n: lats[n] for n in p.prm_lats})


class World:
    def __init__(self, rng, scalar_p=0.0, kinds=('deg', 'deg', 'fail', 'sat', 'thr'), circ=True, big=3):
        self.conds = pick(rng, CONDS, int(rng.integers(1, 4)))
        self.prms, mdls = {}, {}
        for n in pick(rng, ['pa', 'pb', 'pc'], int(rng.integers(1, 4))):
            self.prms[n], mdls[n] = mk_prm(rng, n, self.conds, scalar_p, kinds)
        self.circs = {}
        if circ and rng.random() < 0.7:
            req = pick(rng, list(self.prms), int(rng.integers(1, len(self.prms) + 1)))
            cu = pick(rng, self.conds, int(rng.integers(0, 2)))
            cl = [f'circ_l{k}' for k in range(int(rng.integers(0, 2)))]
            e = Eqn(req + cu + cl, lambda **kw: sum((i + 1) * 0.5 * kw[a] for i, a in enumerate(sorted(kw))))
            mdls['circ'] = CircPrmMdl(e, **latent_vars(rng, cl))
            c = Prm()
            c.name, c.req, c.use, c.lats, c.eqn = 'circ', req, cu, cl, e
            self.circs['circ'] = c
        order = [list(mdls)[int(i)] for i in rng.permutation(len(mdls))]
        self.mdls = {n: mdls[n] for n in order}
        self.dev_unit = pick(rng, [None, 'hours', 'seconds'])
        self.dev = DeviceMdl(dict(self.mdls), 'dev', self.dev_unit)
        self.lots, self.chps = int(rng.integers(1, big)), int(rng.integers(1, big + 1))

    def unit_s(self, m):
        return UNIT_S[m.unit if m.unit is not None else self.dev_unit]

    def cond_vals(self, rng):
        return {c: float(np.round(rng.uniform(0.2, 1.2), 3)) for c in self.conds}

    def counts(self, rng, hi=4):
        return {n: int(rng.integers(1, hi)) for n in self.mdls}

    def mk_test(self, rng, n=5, meas_conds=True, min_stress=0, part=0.8):
        steps = []
        same_names = rng.random() < 0.4  # names do not identify steps
        for i in range(n):
            prev = [s for s in steps if type(s) is StrsSpec]
            if prev and rng.random() < 0.1:
                steps.append(prev[int(rng.integers(len(prev)))])  # the same step again
            elif rng.random() < 0.55 or i < min_stress:
                conds, dur = self.cond_vals(rng), timedelta(hours=float(rng.integers(20, 400)))
                if prev and rng.random() < 0.15:
                    conds = dict(prev[-1].conditions)
                if prev and rng.random() < 0.15:
                    dur = prev[-1].duration
                steps.append(StrsSpec(conds, dur, 'strs' if same_names else f'strs{i}'))
            else:
                names = [x for x in self.mdls if rng.random() < part]
                meas = {x: int(rng.integers(1, 4)) for x in names}
                if meas_conds:
                    for c in self.conds:
                        if rng.random() < 0.3:
                            meas[c] = int(rng.integers(1, 4))
                steps.append(MeasSpec(meas, self.cond_vals(rng), 'meas' if same_names else f'meas{i}'))
        return steps


def need_counts(world, steps):
    """smallest sufficient device counts for a test on a world (reference)"""
    need = {}
    for s in steps:
        if type(s) is MeasSpec:
            for p, q in s.measurements.items():
                need[p] = max(q, need.get(p, 0))
    for c in world.circs.values():
        if c.name in need:
            for r in c.req:
                need[r] = max(need[c.name], need.get(r, 0))
    mx = max(need.values(), default=1)
    return {p: need.get(p, mx) for p in world.mdls}


class CaptureState(SimState):
    """A SimState whose deep copies are registered, so that the state a simulation works on can be observed."""

    copies = []

    def __deepcopy__(self, memo):
        new = SimState.__new__(CaptureState)
        memo[id(self)] = new
        for k, v in self.__dict__.items():
            new.__dict__[k] = copy.deepcopy(v, memo)
        CaptureState.copies.append(new)
        return new


def capture(state):
    st = CaptureState.__new__(CaptureState)
    st.__dict__.update(copy.deepcopy(dict(state.__dict__)))
    return st


def snap(state):
    return copy.deepcopy({k: v for k, v in state.__dict__.items()})


class SnapSpec(TestSpec):
    """A test whose iteration calls a hook between steps (before each step and after the last)."""

    def hook(self, i):
        pass

    def __iter__(self):
        def gen():
            for i, s in enumerate(self.steps):
                self.hook(i)
                yield s
            self.hook(len(self.steps))

        return gen()


def working_state(given):
    """the state the running simulation works on: found among the variables of the library's functions being executed"""
    found, f = [], sys._getframe()
    while f is not None:
        if str(f.f_globals.get('__name__', '')).startswith('gerabaldi'):
            found += [v for v in f.f_locals.values() if isinstance(v, SimState) and v is not given and all(v is not x for x in found)]
        f = f.f_back
    if len(found) == 1:
        return found[0]
    if CaptureState.copies:
        return CaptureState.copies[-1]
    if found:
        raise lib.Skip('several states are in use')
    return given


def run_steps(world, steps, env=None, state=None):
    """Simulate from a captured state; returns (report, [state snapshot before step 0, ..., after last], calls per step)."""
    if state is None:
        state = gen_init_state(world.dev, need_counts(world, steps), world.chps, world.lots)
    st = capture(state)
    CaptureState.copies = []
    spec = SnapSpec(list(steps), world.chps, world.lots, 'name', 'desc')
    snaps, calls = [], []
    eqns = all_eqns(world)

    def hook(i):
        snaps.append(snap(working_state(st)))
        calls.append({k: list(e.calls) for k, e in eqns.items()})
        for e in eqns.values():
            e.calls.clear()

    spec.hook = hook
    for e in eqns.values():
        e.calls.clear()
    rep = simulate(spec, world.dev, env or PhysTestEnv(), st)
    return rep, snaps, calls[1:], st


def all_eqns(world):
    out = {}
    for p in world.prms.values():
        for m in p.mechs:
            out[p.name, m.name] = m.eqn
        if p.cond_eqn:
            out[p.name, 'cond'] = p.cond_eqn
        if p.eqn:
            out[p.name, 'prm'] = p.eqn
        out[p.name, 'init'] = p.init_eqn
    for c in world.circs.values():
        out[c.name, 'circ'] = c.eqn
    return out


def equiv_time(fn, target, lo, hi):
    """vectorized bisection (log time) of a nondecreasing fn for fn(t) == target within [lo, hi]"""
    l, h = np.full(target.shape, np.log10(lo)), np.full(target.shape, np.log10(hi))
    for _ in range(200):
        m = (l + h) / 2
        up = fn(10**m) < target
        l, h = np.where(up, m, l), np.where(up, h, m)
    return 10 ** ((l + h) / 2)


def mech_vals(m, time, conds, lats):
    return m.eqn.fn(time=time, **{c: conds[c] for c in m.use}, **{n: lats[n] for n in m.latents})
