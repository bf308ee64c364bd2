from datetime import timedelta

import numpy as np

from bounded import lib, world as W
from bounded.c12 import enc, decode
from bounded.gen import pick

lib.load()
from gerabaldi import simulate, gen_init_state  # noqa: E402
from gerabaldi.models import *  # noqa: E402,F403
from gerabaldi.exceptions import UserConfigError  # noqa: E402

CLAUSES, clause = lib.registry()


def leaves(d):
    for v in d.values():
        if isinstance(v, dict):
            yield from leaves(v)
        else:
            yield v


def check_state(t, w, st, need, L, C, exact=None):
    for p in w.mdls:
        if p in w.prms:
            t.ok(p in st.curr_prm_vals and p in st.init_prm_vals, f'{p} has values')
            shp = np.shape(st.init_prm_vals[p])
            t.ok(len(shp) == 3 and shp[:2] == (L, C), f'{p}: every lot and chip', got=shp)
            t.ok(shp[2] >= need.get(p, 1), f'{p}: enough devices', got=shp, need=need.get(p))
            t.eq(st.curr_prm_vals[p], st.init_prm_vals[p], f'{p}: current values start equal to the initial values')
            for m in w.prms[p].mechs:
                a, b = st.curr_deg_mech_vals[p][m.name], st.init_deg_mech_vals[p][m.name]
                t.eq(a, np.full(shp, m.unitary), f'{p}.{m.name} un-aged')
                t.eq(b, np.full(shp, m.unitary), f'{p}.{m.name} initial no-effect value')
                t.ok(a is not b, 'independent mechanism values')
                t.eq(sorted(st.latent_var_vals[p][m.name]), sorted(m.latents), f'{p}.{m.name} latents')
                for v in st.latent_var_vals[p][m.name].values():
                    t.eq(np.shape(v), shp, f'{p}.{m.name} latent shape')
            for n in w.prms[p].prm_lats:
                t.eq(np.shape(st.latent_var_vals[p][n]), shp, f'{p} own latent {n}')
            for v in leaves({'c': st.latent_var_vals[p]['cond']}):
                t.eq(np.shape(v), shp, f'{p} shift latents')
        else:
            for n in w.circs[p].lats:
                v = st.latent_var_vals[p][n]
                t.ok(np.shape(v)[:2] == (L, C) and np.shape(v)[2] >= need.get(p, 1), f'{p}: latent {n} covers every device', got=np.shape(v))


@clause(60, funcs='gen_init_state, DeviceMdl.gen_init_state, DegPrmMdl.gen_latent_vals, gen_init_mech_vals, SimState.__init__')
def from_counts(rng, t):
    """from explicit counts: all parameters covered on all lots and chips with enough devices, un-aged, elapsed zero"""
    w = W.World(rng)
    L, C = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    cnt = {p: int(rng.integers(1, 6)) for p in w.mdls if rng.random() < 0.6}
    if rng.random() < 0.3:
        cnt['temp'] = int(rng.integers(1, 9))
    if not cnt:
        cnt = {list(w.mdls)[0]: 2}
    keys = [list(cnt)[int(i)] for i in rng.permutation(len(cnt))]
    cnt = {k: cnt[k] for k in keys}
    t.note(counts=cnt, lots=L, chps=C, prms=list(w.mdls), circ=[c.req for c in w.circs.values()])
    c0 = dict(cnt)
    el = pick(rng, [None, timedelta(hours=5), timedelta()])
    kw = {} if el is None else {'elapsed_time': el}
    st = gen_init_state(w.dev, cnt, C, L, **kw)
    t.ok(cnt == c0, 'supplied counts untouched', got=cnt)
    need = {p: cnt.get(p, 1) for p in w.mdls}
    for c in w.circs.values():
        if c.name in cnt:
            for r in c.req:
                need[r] = max(need[r], cnt[c.name])
    check_state(t, w, st, need, L, C)
    t.eq(st.elapsed, el or timedelta(), 'elapsed time')
    # current values are independent of the initial ones
    for p in st.curr_prm_vals:
        before = np.array(st.init_prm_vals[p])
        st.curr_prm_vals[p] += 1.0
        t.eq(st.init_prm_vals[p], before, f'{p}: changing current values leaves the initial ones')


@clause(40, funcs='simulate, gen_init_state')
def from_test(rng, t):
    """from a test: enough devices for every measurement step, including circuit parameters' inputs"""
    w = W.World(rng)
    steps = [s for s in w.mk_test(rng, int(rng.integers(1, 6)))]
    if not any(type(s) is MeasSpec and s.measurements for s in steps):
        steps.append(MeasSpec({list(w.mdls)[-1]: 3}, w.cond_vals(rng), 'last'))
    L, C = w.lots, w.chps
    t.note(steps=[getattr(s, 'measurements', 'stress') for s in steps], prms=list(w.mdls), circ=[c.req for c in w.circs.values()])
    rep = SimReport(TestSpec(list(steps), C, L))
    st = gen_init_state(w.dev, quantity_info=rep)
    need = {}
    for s in steps:
        for p, q in getattr(s, 'measurements', {}).items():
            need[p] = max(q, need.get(p, 0))
    for c in w.circs.values():
        if c.name in need:
            for r in c.req:
                need[r] = max(need.get(r, 0), need[c.name])
    check_state(t, w, st, need, L, C)
    out = simulate(TestSpec(list(steps), C, L), w.dev, PhysTestEnv())
    m = out.measurements
    for i, s in enumerate(steps):
        for p, q in getattr(s, 'measurements', {}).items():
            if p in w.mdls:
                t.eq(len(m[(m['step #'] == i) & (m['param'] == p)]), q * L * C, f'step {i}: all requested devices of {p} exist')


@clause(40, funcs='InitValMdl.gen_init_vals, LatentMdl.gen_latent_vals')
def initial_values(rng, t):
    """each initial value is the initial-value equation of one set of latent samples of that very device"""
    vt = 'offset'
    a = LatentVar(enc('dev', vt, rng), vrtn_type=vt)
    b = LatentVar(enc('chp', vt, rng), vrtn_type=vt)
    mdl = InitValMdl(lambda a, b: a + b, a=a, b=b)
    dev = DeviceMdl({'p': DegPrmMdl({'m': DegMechMdl(lambda time: time)}, mdl)})
    L, C, D = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    t.note(dims=(L, C, D))
    st = gen_init_state(dev, {'p': D}, C, L)
    v = st.init_prm_vals['p']
    t.eq(np.shape(v), (L, C, D), 'shape')
    codes = [decode(float(x), vt, {'dev', 'chp'}, None) for x in np.ravel(v)]
    t.ok(all(c is not None for c in codes), 'value built from one sample of each latent', got=v)
    t.ok(len({c['dev'] for c in codes}) == len(codes) and len({c['chp'] for c in codes}) == len(codes), 'every device has its own samples', got=v)


@clause(15, funcs='gen_init_state')
def refusals(rng, t):
    """missing quantities are refused with UserConfigError"""
    w = W.World(rng)
    t.note(prms=list(w.mdls))
    t.raises(UserConfigError, lambda: gen_init_state(w.dev), 'neither counts nor report')
    t.raises(UserConfigError, lambda: gen_init_state(w.dev, num_chps=2, num_lots=2), 'neither counts nor report')
    t.raises(UserConfigError, lambda: gen_init_state(w.dev, {}), 'empty counts')


@clause(15, funcs='SimState.__init__')
def state_copies(rng, t):
    """SimState copies what it is given: current, initial and caller data are independent"""
    a, m, l = {'p': np.ones((1, 2, 2))}, {'p': {'m': np.zeros((1, 2, 2))}}, {'p': {'cond': {}, 'm': {'x': np.ones((1, 2, 2))}}}
    s = SimState(a, m, l)
    t.note(x=1)
    t.eq(s.elapsed, timedelta(), 'elapsed starts at zero')
    s.curr_prm_vals['p'][0, 0, 0] = 9
    s.curr_deg_mech_vals['p']['m'][0, 0, 0] = 9
    a['p'][0, 1, 1] = 5
    l['p']['m']['x'][0, 0, 0] = 7
    t.eq(s.init_prm_vals['p'], np.ones((1, 2, 2)), 'initial values independent')
    t.eq(s.init_deg_mech_vals['p']['m'], np.zeros((1, 2, 2)), 'initial mechanism values independent')
    t.eq(s.latent_var_vals['p']['m']['x'], np.ones((1, 2, 2)), 'latents independent of the caller')
    t.eq(a['p'][0, 0, 0], 1.0, "caller's values independent")
