from datetime import timedelta

from bounded import lib
from bounded.gen import pick, NAMES

lib.load()
from gerabaldi.models import StrsSpec, MeasSpec, TestSpec  # noqa: E402

CLAUSES, clause = lib.registry()


def mk(rng, n):
    steps = []
    for i in range(n):
        if rng.random() < 0.35:
            steps.append(StrsSpec({'temp': 1}, timedelta(hours=1 + i), f's{i}'))
        else:
            steps.append(MeasSpec({p: int(rng.integers(0, 7)) for p in pick(rng, NAMES, int(rng.integers(0, 5)))}, {}, f'm{i}'))
    if steps and rng.random() < 0.4:
        steps.append(steps[int(rng.integers(len(steps)))])
    return steps


@clause(60, funcs='TestSpec.__iter__, __next__')
def iteration(rng, t):
    """iter yields every step once in order; iterating again (also after a partial pass) starts over; appends are seen"""
    steps = mk(rng, int(rng.integers(0, 7)))
    spec = TestSpec(list(steps))
    t.note(steps=[s.name for s in steps])
    ids = [id(s) for s in steps]
    t.eq([id(s) for s in spec], ids, 'first pass')
    t.eq([id(s) for s in spec], ids, 'second pass')
    if len(steps) > 1:
        k = int(rng.integers(1, len(steps)))
        got = []
        for i, s in enumerate(spec):
            got.append(id(s))
            if i + 1 == k:
                break
        t.eq(got, ids[:k], 'partial pass')
        t.eq([id(s) for s in spec], ids, 'full pass after a partial one')
    it = iter(spec)
    got = []
    while True:
        try:
            got.append(id(next(it)))
        except StopIteration:
            break
    t.eq(got, ids, 'explicit next protocol')
    extra = mk(rng, 2)
    spec.append_steps(extra)
    t.eq([id(s) for s in spec], ids + [id(s) for s in extra], 'pass after appending')


@clause(100, funcs='TestSpec.calc_samples_needed')
def samples_needed(rng, t):
    """calc_samples_needed()[p] = max over measurement steps requesting p; no other keys"""
    steps = mk(rng, int(rng.integers(0, 8)))
    spec = TestSpec(list(steps))
    t.note(steps=[getattr(s, 'measurements', None) for s in steps])
    want = {}
    for s in steps:
        if type(s) is MeasSpec:
            for p, q in s.measurements.items():
                want[p] = max(q, want.get(p, q))
    got = spec.calc_samples_needed()
    t.ok(dict(got) == want, 'samples needed', got=got, want=want)
    t.ok(dict(spec.calc_samples_needed()) == want, 'samples needed (repeated)')
