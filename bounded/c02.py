from datetime import timedelta

import numpy as np

from bounded import lib
from bounded.gen import pick

lib.load()
from bounded.c01 import US, ALIAS  # noqa: E402
from gerabaldi import simulate, gen_init_state  # noqa: E402
from gerabaldi.models import *  # noqa: E402,F403

CLAUSES, clause = lib.registry()
GIVEN = ['d', 'days', 'h', 'hours', 's', 'seconds', 'ms', 'milliseconds', 'us', 'microseconds']


def maybe(rng, p=0.5):
    return pick(rng, GIVEN) if rng.random() < p else None


@clause(40, funcs='DeviceMdl.__init__, propagate_time_unit, DegPrmMdl.propagate_time_unit, MechMdl.set_time_unit, _sim_stress_step')
def resolution(rng, t):
    """after construction mech.time_unit = own or prm or dev or hours (explicit never overridden); the equation receives
    the stress time in that unit"""
    dev_u = maybe(rng)
    seen, prms, want = {}, {}, {}
    for p in pick(rng, ['p1', 'p2', 'p3'], int(rng.integers(1, 4))):
        prm_u = maybe(rng)
        mechs = {}
        for m in pick(rng, ['ma', 'mb', 'mc'], int(rng.integers(1, 4))):
            mu = maybe(rng)

            def eqn(time, key=(p, m)):
                seen.setdefault(key, []).append(np.array(time, dtype=float))
                return time * 0.0

            eqn.__signature__ = __import__('inspect').Signature(
                [__import__('inspect').Parameter('time', __import__('inspect').Parameter.POSITIONAL_OR_KEYWORD)]
            )
            cls = FailMechMdl if rng.random() < 0.6 else DegMechMdl
            mechs[m] = cls(eqn, time_unit=mu)
            want[p, m] = (mu, mu or prm_u or dev_u or 'hours', cls)
        single = len(mechs) == 1 and rng.random() < 0.5
        if single:
            ((m, mdl),) = mechs.items()
            mdl.name = m
            prms[p] = DegPrmMdl(mdl, time_unit=prm_u)
        else:
            prms[p] = DegPrmMdl(mechs, time_unit=prm_u)
    t.note(dev_unit=dev_u, want={f'{k}': v[:2] for k, v in want.items()}, prm_units={p: prms[p].time_unit for p in prms})
    if rng.random() < 0.4:
        prms['circ'] = CircPrmMdl(lambda **k: 0, 'circ')
    if len(prms) == 1 and rng.random() < 0.5:
        ((p, mdl),) = prms.items()
        mdl.name = p
        dev = DeviceMdl(mdl, time_unit=dev_u)
    else:
        dev = DeviceMdl(dict(prms), time_unit=dev_u)
    for (p, m), (own, res, _) in want.items():
        got = dev.prm_mdl(p).mech_mdl(m).time_unit
        t.ok(got in ALIAS and ALIAS[got] == ALIAS[res], f'unit of {p}.{m}', got=got, expected=res)
        if own is not None:
            t.eq(got, own, f'explicit unit of {p}.{m} kept')
    # use: a failure mechanism sees exactly the duration of the phase, in its unit
    dur = timedelta(seconds=int(rng.integers(1, 90000)), microseconds=int(rng.integers(0, 10**6)))
    counts = {p: 2 for p in prms if p != 'circ'}
    t.note(duration=dur)
    test = TestSpec([StrsSpec({}, dur)])
    st = gen_init_state(dev, dict(counts))
    seen.clear()
    simulate(test, dev, PhysTestEnv(), st)
    us = timedelta(microseconds=1)
    for (p, m), (own, res, cls) in want.items():
        if cls is FailMechMdl:
            t.ok((p, m) in seen, f'equation of {p}.{m} evaluated in the stress step')
            t.close(seen[p, m][-1], np.full(seen[p, m][-1].shape, (dur // us) / US[ALIAS[res]]), f'time seen by {p}.{m}', rtol=1e-12, atol=0)


@clause(12, funcs='MechMdl.set_time_unit')
def reuse_keeps_resolved(rng, t):
    """a unit once given explicitly to a mechanism is not overridden by being used in further devices"""
    own, pu, du = pick(rng, GIVEN), maybe(rng), maybe(rng)
    t.note(own=own, prm=pu, dev=du)
    mech = DegMechMdl(lambda time: time, mdl_name='m', time_unit=own)
    for u in (du, maybe(rng), None):
        dev = DeviceMdl(DegPrmMdl({'m': mech}, prm_name='p', time_unit=pu), time_unit=u)
        t.eq(dev.prm_mdl('p').mech_mdl('m').time_unit, own, 'explicit unit kept')
