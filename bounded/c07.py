import numpy as np

from bounded import lib, world as W
from bounded.c08 import W_same

lib.load()
from gerabaldi.models import MeasSpec, StrsSpec  # noqa: E402

CLAUSES, clause = lib.registry()


def cut(v, n):
    return v[:, :, :n] if isinstance(v, np.ndarray) else v


def expect_prm(w, p, st, conds, n):
    lat = st['latent_var_vals'][p.name]
    shape = st['curr_prm_vals'][p.name].shape[:2] + (n,)
    if p.cond_eqn is None:
        cv = 0
    else:
        cl = {a: cut(lat['cond'][a], n) for a in p.cond_eqn.args if a not in conds}
        cv = p.cond_eqn.fn(**{c: np.full(shape, conds[c]) for c in p.cond_use}, **cl)
    init = cut(st['curr_prm_vals'][p.name], n)
    return W.prm_value(p, init, cv, {m.name: m.unitary for m in p.mechs}, {k: cut(lat[k], n) for k in p.prm_lats})


def expect_circ(w, c, st, conds, n):
    kw = {r: cut(st['curr_prm_vals'][r], n) for r in c.req}
    shape = next(iter(kw.values())).shape
    kw.update({x: np.full(shape, conds[x]) for x in c.use})
    kw.update({l: cut(st['latent_var_vals'][c.name][l], n) for l in c.lats})
    return c.eqn.fn(**kw)


def check_meas(t, w, i, s, pre, post, rep):
    m = rep.measurements
    for p, q in s.measurements.items():
        if p not in w.mdls:
            continue
        rows = m[(m['step #'] == i) & (m['param'] == p)]
        want = expect_prm(w, w.prms[p], pre, s.conditions, q) if p in w.prms else expect_circ(w, w.circs[p], pre, s.conditions, q)
        t.eq(want.shape, (w.lots, w.chps, q), 'harness shape')
        got = {(int(r['lot #']), int(r['chip #']), int(r['device #'])): float(r['measured']) for _, r in rows.iterrows()}
        for (l, c, d) in np.ndindex(w.lots, w.chps, q):
            t.ok((l, c, d) in got and abs(got[l, c, d] - want[l, c, d]) <= 1e-9 * max(1, abs(want[l, c, d])),
                 f'step {i}: measured {p} at lot {l} chip {c} device {d}', got=got.get((l, c, d)), want=want[l, c, d], requested=q, available=len(rows))
    t.ok(W_same({k: v for k, v in pre.items() if isinstance(v, dict)}, {k: v for k, v in post.items() if isinstance(v, dict)}), f'step {i}: measuring does not change the devices')
    t.eq(post['elapsed'], pre['elapsed'], f'step {i}: measuring takes no time')


@clause(60, funcs='_sim_meas_step, DegPrmMdl.calc_cond_shifted_vals, CondShiftMdl.calc_cond_vals, CircPrmMdl.calc_circ_vals, _reduce_dev_dim_size')
def measured_values(rng, t):
    """measured = prm eqn(current value, cond shift(measurement conditions), unitary mechanisms, latents) for the first
    requested devices of every chip; circuits likewise from current true values; the state is unchanged"""
    w = W.World(rng)
    steps = w.mk_test(rng, int(rng.integers(1, 6)), min_stress=int(rng.integers(0, 2)))
    if not any(type(s) is MeasSpec and s.measurements for s in steps):
        steps.append(MeasSpec({p: 2 for p in w.mdls}, w.cond_vals(rng), 'last'))
    t.note(prms={p: [(m.name, m.kind) for m in x.mechs] for p, x in w.prms.items()}, circ=[c.req for c in w.circs.values()], lots=w.lots, chps=w.chps,
           steps=[(s.name, s.conditions, getattr(s, 'measurements', None)) for s in steps])
    rep, snaps, calls, _ = W.run_steps(w, steps)
    for i, s in enumerate(steps):
        if type(s) is MeasSpec:
            check_meas(t, w, i, s, snaps[i], snaps[i + 1], rep)


@clause(25, funcs='_sim_meas_step, DegPrmMdl.calc_cond_shifted_vals, CircPrmMdl.calc_circ_vals')
def partial_equals_full(rng, t):
    """measuring n of N devices yields exactly the first n values per chip of a full measurement"""
    from bounded.world import need_counts
    from gerabaldi import gen_init_state

    w = W.World(rng)
    N = 4
    conds = w.cond_vals(rng)
    steps = [StrsSpec(w.cond_vals(rng), __import__('datetime').timedelta(hours=77), 's'), MeasSpec({p: N for p in w.mdls}, conds, 'full')]
    for n in range(1, N):
        steps.append(MeasSpec({p: n for p in w.mdls}, conds, f'part{n}'))
    t.note(prms=list(w.mdls), lots=w.lots, chps=w.chps)
    rep, snaps, calls, _ = W.run_steps(w, steps)
    m = rep.measurements
    key = ['param', 'lot #', 'chip #', 'device #']
    full = {tuple(r[k] for k in key): r['measured'] for _, r in m[m['step #'] == 1].iterrows()}
    for i in range(2, len(steps)):
        part = {tuple(r[k] for k in key): r['measured'] for _, r in m[m['step #'] == i].iterrows()}
        t.eq(len(part), len(w.mdls) * w.lots * w.chps * (i - 1), f'row count measuring {i - 1}')
        t.ok(all(k in full and abs(full[k] - v) <= 1e-12 * max(1, abs(v)) and k[3] < i - 1 for k, v in part.items()), f'measuring {i - 1} of {N} agrees with the full measurement')
