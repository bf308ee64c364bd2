from datetime import timedelta

import numpy as np

from bounded import lib, world as W
from bounded.gen import pick

lib.load()
from gerabaldi.models import StrsSpec  # noqa: E402

CLAUSES, clause = lib.registry()


def check_stress(t, w, step, pre, post, tag=''):
    for pn, p in w.prms.items():
        lat = pre['latent_var_vals'][pn]
        for m in p.mechs:
            prev, got = np.asarray(pre['curr_deg_mech_vals'][pn][m.name], float), np.asarray(post['curr_deg_mech_vals'][pn][m.name], float)
            dur = step.duration.total_seconds() / w.unit_s(m)
            t.eq(got.shape, prev.shape, f'{tag}{pn}.{m.name}: every device keeps a mechanism value')
            f = lambda tm, m=m, l=lat[m.name]: W.mech_vals(m, tm, step.conditions, l)  # noqa: E731
            if m.kind == 'fail':
                want = np.where(prev != m.unitary, prev, f(np.full(prev.shape, dur)))
                t.close(got, want, f'{tag}{pn}.{m.name}: hard failure value', rtol=1e-9)
                continue
            lo, hi = 1e-3, 1e10 * max(1.0, 3600.0 / w.unit_s(m))
            top, bot = f(np.full(prev.shape, hi)), f(np.full(prev.shape, lo))
            te = W.equiv_time(f, prev, lo, hi)
            want = f(te + dur)
            unreach = prev > top + 1e-7 * np.abs(top)
            near = (np.abs(prev - top) <= 1e-4 * np.abs(top - m.unitary)) & ~unreach
            err = np.abs(got - want)
            tol = 1e-3 * np.abs(want - m.unitary) + 1e-9
            bad = np.where(unreach, got != prev, np.where(near, (err > tol) & (np.abs(got - prev) > tol), err > tol))
            t.ok(not bad.any(), f'{tag}{pn}.{m.name}: value at equivalent time plus duration (or kept when unattainable)',
                 prev=prev, got=got, want=want, unreach=unreach, unit=m.unit, dur=dur)
        mv = {m.name: post['curr_deg_mech_vals'][pn][m.name] for m in p.mechs}
        want = W.prm_value(p, pre['init_prm_vals'][pn], p.cond_unitary, mv, lat)
        t.close(post['curr_prm_vals'][pn], np.broadcast_to(want, np.shape(pre['init_prm_vals'][pn])), f'{tag}{pn}: parameter equation of initial value and new mechanisms', rtol=1e-9)
        for f in ('init_prm_vals', 'init_deg_mech_vals', 'latent_var_vals'):
            t.ok(W_same(pre[f], post[f]), f'{tag}{f} never change')


def W_same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(W_same(a[k], b[k]) for k in a)
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


@clause(60, funcs='simulate, _sim_stress_step, DegPrmMdl.calc_equiv_strs_times, calc_deg_vals, MechMdl.calc_deg_vals')
def stress_steps(rng, t):
    """after each stress step: mech = eqn(equiv. time + duration, step conditions, own latents), unattainable samples keep
    their value; prm = compute(init, unitary cond, new mechs); initial and latent values unchanged"""
    w = W.World(rng, circ=bool(rng.integers(2)))
    steps = w.mk_test(rng, int(rng.integers(1, 5)), min_stress=1)
    t.note(prms={p: [(m.name, m.kind, m.unit) for m in x.mechs] for p, x in w.prms.items()}, lots=w.lots, chps=w.chps,
           steps=[(s.name, s.conditions, getattr(s, 'duration', None), getattr(s, 'measurements', None)) for s in steps])
    rep, snaps, calls, _ = W.run_steps(w, steps)
    for i, s in enumerate(steps):
        if type(s) is StrsSpec:
            check_stress(t, w, s, snaps[i], snaps[i + 1], f'step {i} ')


@clause(10, funcs='simulate, _sim_stress_step, MechMdl.calc_deg_vals')
def fine_units(rng, t):
    """long phases on mechanisms with fine time units degrade like the same phase in coarse units"""
    from gerabaldi import gen_init_state
    from gerabaldi.models import DegMechMdl, DegPrmMdl, DeviceMdl, PhysTestEnv, TestSpec, MeasSpec
    from gerabaldi import simulate

    n = float(rng.uniform(0.3, 1.0))
    hrs = float(rng.integers(100, 20000))
    vals = {}
    for u, k in (('hours', 1.0), ('seconds', 3600.0), ('milliseconds', 3.6e6), ('microseconds', 3.6e9), ('days', 1 / 24)):
        dev = DeviceMdl(DegPrmMdl({'m': DegMechMdl(lambda time, k=k: (time / k) ** n, time_unit=u)}, prm_name='p'))
        test = TestSpec([StrsSpec({}, timedelta(hours=hrs)), MeasSpec({'p': 1}, {})])
        test.append_steps([StrsSpec({}, timedelta(hours=hrs / 2)), MeasSpec({'p': 1}, {})])
        vals[u] = [float(x) for x in simulate(test, dev, PhysTestEnv()).measurements['measured']]
    t.note(n=n, hours=hrs)
    for u, v in vals.items():
        t.close(v, [hrs**n, (1.5 * hrs) ** n], f'degradation in {u}', rtol=2e-4)


@clause(10, funcs='simulate, _sim_stress_step')
def provided_state_all_devices(rng, t):
    """with a provided initial state every device in it is stressed, however few of them the test measures"""
    w = W.World(rng, circ=False)
    from gerabaldi import gen_init_state

    cnt = {p: int(rng.integers(2, 5)) for p in w.mdls}
    st = gen_init_state(w.dev, dict(cnt), w.chps, w.lots)
    from gerabaldi.models import MeasSpec

    first = pick(rng, list(w.mdls))
    s = StrsSpec(w.cond_vals(rng), timedelta(hours=100), 's')
    steps = [s, MeasSpec({first: 1}, w.cond_vals(rng), 'm')] if rng.random() < 0.7 else [s]
    t.note(counts=cnt, steps=[x.name for x in steps])
    rep, snaps, calls, _ = W.run_steps(w, steps, state=st)
    check_stress(t, w, s, snaps[0], snaps[1])


@clause(10, funcs='simulate, MechMdl.calc_deg_vals, DegMechMdl.calc_equiv_strs_time')
def latent_called_like_condition(rng, t):
    """the latent variables of a mechanism are its own, also when a condition of the test has the same name"""
    from gerabaldi import simulate
    from gerabaldi.models import DegMechMdl, DegPrmMdl, DeviceMdl, FailMechMdl, LatentVar, MeasSpec, PhysTestEnv, TestSpec

    lat, cond, other = (float(np.round(rng.uniform(0.5, 5), 2)) for _ in range(3))
    hrs = [int(h) for h in rng.integers(1, 50, int(rng.integers(1, 4)))]
    fail = bool(rng.random() < 0.3)

    def eqn(time, temp, vdd):
        return temp * vdd * time

    mech = (FailMechMdl if fail else DegMechMdl)(eqn, 'm', time_unit='h', temp=LatentVar(deter_val=lat))
    t.note(latent=lat, condition=cond, other=other, hours=hrs, fail=fail)
    dev = DeviceMdl(DegPrmMdl(mech, prm_name='p'))
    test = TestSpec([StrsSpec({'temp': cond, 'vdd': other}, timedelta(hours=h), f's{h}') for h in hrs] + [MeasSpec({'p': 2}, {'temp': cond}, 'm')])
    got = [float(x) for x in simulate(test, dev, PhysTestEnv()).measurements['measured']][-2:]
    t.close(got, [lat * other * (hrs[0] if fail else sum(hrs))] * 2, 'degradation with the latent value of the mechanism', rtol=1e-3)


# Genuine defects that are recorded (KNOWN_FINDINGS.txt) instead of repaired: each clause is one fixed input
KNOWN, known = lib.registry()


@known(1, funcs='minimize, DegMechMdl.calc_equiv_strs_time, MechMdl.calc_deg_vals')
def plateau_recovers(rng, t):
    """fixed input: g*(1-exp(-time/200)) in seconds, 1 h at g=8.09 then 648000 s at g=5.65: the degradation 8.09 cannot be
    reached at g=5.65, so it must be kept"""
    from gerabaldi import simulate
    from gerabaldi.models import DegMechMdl, DegPrmMdl, DeviceMdl, MeasSpec, PhysTestEnv, TestSpec

    dev = DeviceMdl({'p': DegPrmMdl({'m': DegMechMdl(lambda time, g: g * (1 - np.exp(-time / 200)), time_unit='s')})})
    test = TestSpec([StrsSpec({'g': 8.09}, timedelta(hours=1)), MeasSpec({'p': 1}, {}),
                     StrsSpec({'g': 5.65}, timedelta(seconds=648000)), MeasSpec({'p': 1}, {})])
    a, b = simulate(test, dev, PhysTestEnv()).measurements['measured']
    t.ok(b >= a - 1e-9, 'unattainable degradation kept', before=float(a), after=float(b))


@clause(20, funcs='simulate')
def starting_state(rng, t):
    """a simulation goes on from the supplied state, whatever happened to it before: same current, initial and latent values"""
    from gerabaldi import gen_init_state

    w = W.World(rng)
    steps = w.mk_test(rng, int(rng.integers(1, 4)), min_stress=1)
    st = gen_init_state(w.dev, W.need_counts(w, steps), w.chps, w.lots)
    # an aged state, as a user restores it
    for pn, p in w.prms.items():
        st.curr_prm_vals[pn] = st.curr_prm_vals[pn] + rng.uniform(0.1, 1.0, np.shape(st.curr_prm_vals[pn]))
        for m in p.mechs:
            if m.kind != 'fail':
                v = np.asarray(st.curr_deg_mech_vals[pn][m.name], float)
                st.curr_deg_mech_vals[pn][m.name] = v + rng.uniform(0.0, 1e-3, v.shape)
    st.elapsed = timedelta(hours=int(rng.integers(0, 99)))
    t.note(prms={p: [(m.name, m.kind) for m in x.mechs] for p, x in w.prms.items()}, steps=[s.name for s in steps])
    rep, snaps, calls, given = W.run_steps(w, steps, state=st)
    for f in ('curr_prm_vals', 'init_prm_vals', 'curr_deg_mech_vals', 'init_deg_mech_vals', 'latent_var_vals'):
        t.ok(W_same(getattr(st, f), snaps[0][f]), f'{f}: the first step finds the supplied values', got=snaps[0][f], want=getattr(st, f))
    t.eq(snaps[0]['elapsed'], st.elapsed, 'elapsed time')
