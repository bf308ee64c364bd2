from datetime import timedelta

import numpy as np

from bounded import lib, world as W
from bounded.gen import dims

lib.load()
from gerabaldi.models import FailMechMdl, StrsSpec, LatentVar  # noqa: E402

CLAUSES, clause = lib.registry()


@clause(80, funcs='FailMechMdl.calc_deg_vals, MechMdl.calc_deg_vals')
def failure_update(rng, t):
    """FailMechMdl.calc_deg_vals = where(pre != unitary, pre, eqn(time, conds, latents)) elementwise"""
    L, C, D = dims(rng)
    un = [0, 1, 0.0, 2.5, -1][int(rng.integers(5))]
    thr = float(rng.uniform(0.5, 3))
    scalar = rng.random() < 0.4
    eqn = W.Eqn(['time', 'temp', 'a'], lambda time, temp, a: np.where(time * temp * a > thr, 7.0 + a, un) + 0.0, scalar)
    mdl = FailMechMdl(eqn, unitary_val=un, time_unit='h', a=LatentVar(deter_val=1))
    tm, temp, a = rng.uniform(0.1, 2, (L, C, D)), rng.uniform(0.5, 2, (L, C, D)), rng.uniform(0.5, 1.5, (L, C, D))
    pre = np.where(rng.random((L, C, D)) < 0.5, un, rng.choice([un + 1.0, un - 3.0, 9.0, un + 1e-9, -un - 0.5], (L, C, D)))
    pre = np.asarray(pre, float)
    if rng.random() < 0.3:
        pre[rng.random((L, C, D)) < 0.3] = [np.inf, -np.inf, np.nan][int(rng.integers(3))]
    t.note(shape=(L, C, D), unitary=un, pre=pre, scalar=scalar)
    pre0 = pre.copy()
    got = mdl.calc_deg_vals(tm, pre, {'temp': temp, 'other': temp}, {'a': a}, (L, C, D))
    want = np.where(pre0 != un, pre0, np.where(tm * temp * a > thr, 7.0 + a, un))
    t.eq(got, want, 'failure values')
    t.eq(pre, pre0, 'argument untouched')
    z = mdl.calc_equiv_strs_time(pre, pre, {'temp': temp}, {'a': a}, (L, C, D))
    t.eq(np.broadcast_to(z, pre.shape), np.zeros(pre.shape), 'a failure mechanism has no equivalent prior time')


@clause(40, funcs='simulate, FailMechMdl.calc_deg_vals, FailMechMdl.calc_equiv_strs_time')
def permanence(rng, t):
    """along any sequence of stress phases a failed sample keeps its failure value, an unfailed one takes the equation's
    value for that phase alone"""
    w = W.World(rng, kinds=('fail', 'fail', 'deg'), circ=False)
    n = int(rng.integers(2, 6))
    steps = w.mk_test(rng, n, min_stress=n)
    for s in steps:
        if type(s) is StrsSpec and rng.random() < 0.5:
            s.conditions = {c: v * float(rng.uniform(0.2, 3)) for c, v in s.conditions.items()}
    t.note(prms={p: [(m.name, m.kind, m.unitary) for m in x.mechs] for p, x in w.prms.items()}, steps=[(s.conditions, s.duration) for s in steps])
    rep, snaps, calls, _ = W.run_steps(w, steps)
    for i, s in enumerate(steps):
        for pn, p in w.prms.items():
            for m in p.mechs:
                if m.kind != 'fail':
                    continue
                pre, got = snaps[i]['curr_deg_mech_vals'][pn][m.name], snaps[i + 1]['curr_deg_mech_vals'][pn][m.name]
                dur = s.duration.total_seconds() / w.unit_s(m)
                fresh = W.mech_vals(m, np.full(np.shape(pre), dur), s.conditions, snaps[i]['latent_var_vals'][pn][m.name])
                failed = np.asarray(pre) != m.unitary
                t.ok(np.all(np.where(failed, got == pre, True)), f'step {i} {pn}.{m.name}: failed samples keep their value', pre=pre, got=got)
                t.close(np.where(failed, 0, got), np.where(failed, 0, fresh), f'step {i} {pn}.{m.name}: unfailed samples, this phase alone', rtol=1e-9)
