import numpy as np

from bounded import lib
from bounded.c12 import decode, enc, PRIMES, OFF, check_layers
from bounded.gen import pick

lib.load()
from gerabaldi.models import EnvVrtnMdl, Deterministic, Normal  # noqa: E402
from gerabaldi.exceptions import InvalidTypeError  # noqa: E402

CLAUSES, clause = lib.registry()
# the batch layer plays the role of the lot layer in the code
MAP = {'dev': 'dev', 'chp': 'chp', 'batch': 'lot'}
GROUP = {'dev': lambda i: i, 'chp': lambda i: i[:2], 'lot': lambda i: ()}


def rand_dims(rng):
    return int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 5))


@clause(80, funcs='EnvVrtnMdl.__init__, __setattr__, gen_batch_vrtn, gen_chp_vrtns, gen_dev_vrtns, gen_env_vrtns')
def layers(rng, t):
    """gen_env_vrtns(x, d, c, l) has shape (l, c, d) and every value is x (op) batch (op) its chip's draw (op) its own draw"""
    vt = pick(rng, ['scaling', 'offset'])
    defd = {l for l in MAP if rng.random() < 0.65}
    kw = {f'{l}_vrtn_mdl': enc(MAP[l], vt, rng) for l in defd}
    if vt != 'offset' or rng.random() < 0.5:
        kw['vrtn_type'] = vt
    base = float(rng.integers(1, 9)) + 0.5
    L, C, D = rand_dims(rng)
    t.note(vrtn_type=kw.get('vrtn_type'), defined=sorted(defd), base=base, dims=(L, C, D))
    m = EnvVrtnMdl(**kw)
    vals = np.asarray(m.gen_env_vrtns(base, D, C, L))
    t.eq(vals.shape, (L, C, D), 'shape lot x chip x device')
    check_layers(t, vals, vt, {MAP[l] for l in defd}, base, GROUP, 'sample')
    if not defd:
        t.eq(vals, np.full((L, C, D), base), 'no variation: exact target')


@clause(40, funcs='EnvVrtnMdl.gen_batch_vrtn, gen_chp_vrtns, gen_dev_vrtns')
def layer_by_layer(rng, t):
    """the three layer methods compose: batch value, then per chip of each lot, then per device of each chip"""
    vt = pick(rng, ['scaling', 'offset'])
    m = EnvVrtnMdl(enc('dev', vt, rng), enc('chp', vt, rng), enc('lot', vt, rng), vrtn_type=vt)
    base = float(rng.integers(1, 9)) + 0.5
    L, C, D = rand_dims(rng)
    t.note(vrtn_type=vt, base=base, dims=(L, C, D))
    b = np.asarray(m.gen_batch_vrtn(base))
    t.eq(b.size, 1, 'one batch value')
    t.ok(decode(float(b.ravel()[0]), vt, {'lot'}, base) is not None, 'batch value is target and one batch draw', value=b)
    c = np.asarray(m.gen_chp_vrtns(b, C, L))
    t.eq(c.shape, (L, C), 'one value per chip of each lot')
    check_layers(t, c[..., None], vt, {'lot', 'chp'}, base, GROUP, 'chip layer')
    d = np.asarray(m.gen_dev_vrtns(c, D))
    t.eq(d.shape, (L, C, D), 'one value per device')
    check_layers(t, d, vt, {'lot', 'chp', 'dev'}, base, GROUP, 'device layer')
    got = {decode(float(x), vt, {'lot', 'chp'}, base)['chp'] for x in c.ravel()}
    t.ok({decode(float(x), vt, {'lot', 'chp', 'dev'}, base)['chp'] for x in d.ravel()} == got, 'device layer keeps the chip draws')
    for i in np.ndindex(L, C):
        want = decode(float(c[i]), vt, {'lot', 'chp'}, base)['chp']
        t.ok(all(decode(float(x), vt, {'lot', 'chp', 'dev'}, base)['chp'] == want for x in d[i]), 'devices of a chip see their own chip draw')
    s = np.asarray(EnvVrtnMdl(enc('dev', vt, rng), vrtn_type=vt).gen_dev_vrtns(base, D))
    t.eq(s.shape, (1, 1, D), 'scalar base is one chip')
    check_layers(t, s, vt, {'dev'}, base, GROUP, 'scalar base')


@clause(80, funcs='EnvVrtnMdl.__setattr__')
def attribute_histories(rng, t):
    """the layer rule holds after any sequence of changes to the variation type and to the layers"""
    vt = pick(rng, ['scaling', 'offset'])
    defd = {l for l in MAP if rng.random() < 0.5}
    m = EnvVrtnMdl(**{f'{l}_vrtn_mdl': enc(MAP[l], vt, rng) for l in defd}, vrtn_type=vt)
    hist = [('init', vt, sorted(defd))]
    for _ in range(int(rng.integers(1, 7))):
        k = int(rng.integers(5))
        if k == 0:
            vt = pick(rng, ['scaling', 'offset'])
            m.vrtn_type = vt
            hist.append(('vrtn_type', vt))
        elif k in (1, 2):
            l = pick(rng, list(MAP))
            if k == 1:
                setattr(m, f'{l}_vrtn_mdl', None)
                defd.discard(l)
            else:
                setattr(m, f'{l}_vrtn_mdl', enc(MAP[l], vt, rng))
                defd.add(l)
            hist.append((l, None if k == 1 else 'enc'))
        elif k == 3:
            m.name = pick(rng, ['a', 'b', None])
            hist.append(('name', m.name))
        else:
            bad = pick(rng, ['mult', '', None, 'Offset', 2])
            t.raises(InvalidTypeError, lambda: setattr(m, 'vrtn_type', bad), 'invalid variation type refused')
            hist.append(('bad', bad))
    t.note(history=hist)
    t.eq(m.vrtn_type, vt, 'variation type')
    for l in defd:
        setattr(m, f'{l}_vrtn_mdl', enc(MAP[l], vt, rng))
    base = 3.5
    L, C, D = rand_dims(rng)
    vals = np.asarray(m.gen_env_vrtns(base, D, C, L))
    t.eq(vals.shape, (L, C, D), 'shape')
    check_layers(t, vals, vt, {MAP[l] for l in defd}, base, GROUP, f'after {hist}')


@clause(10, funcs='EnvVrtnMdl.__init__')
def refusals(rng, t):
    """an invalid variation type is refused at construction"""
    bad = pick(rng, ['mult', '', None, 'Offset', 2, 'scale'])
    t.note(bad=bad)
    t.raises(InvalidTypeError, lambda: EnvVrtnMdl(vrtn_type=bad), 'invalid variation type')


@clause(20, funcs='EnvVrtnMdl.__init__, __setattr__, gen_env_vrtns')
def shared_distribution(rng, t):
    """the same distribution object may serve several layers: each layer still contributes its own variation"""
    v = float(rng.integers(2, 6))
    vt = pick(rng, ['scaling', 'offset'])
    use = pick(rng, list(MAP), int(rng.integers(2, 4)))
    t.note(value=v, vrtn_type=vt, layers=use)
    rv = Deterministic(v)
    L, C, D = rand_dims(rng)
    want = 7.0 * v ** len(use) if vt == 'scaling' else 7.0 + v * len(use)
    m = EnvVrtnMdl(**{f'{l}_vrtn_mdl': rv for l in use}, vrtn_type=vt)
    t.close(np.asarray(m.gen_env_vrtns(7.0, D, C, L), float), np.full((L, C, D), want), 'given at construction', rtol=1e-12)
    m = EnvVrtnMdl(vrtn_type=vt)
    for l in use:
        setattr(m, f'{l}_vrtn_mdl', rv)
    t.close(np.asarray(m.gen_env_vrtns(7.0, D, C, L), float), np.full((L, C, D), want), 'assigned one by one', rtol=1e-12)


@clause(3, funcs='EnvVrtnMdl.gen_env_vrtns')
def many_samples(rng, t):
    """every chip and device has a draw of its own, however many there are"""
    L, C, D = (int(x) for x in rng.permutation([int(rng.integers(2, 9)), int(rng.integers(10, 40)), int(rng.integers(50, 150))]))
    k = int(rng.integers(3))
    v = EnvVrtnMdl(*[Normal(5, 0.5) if j == k else None for j in range(3)], vrtn_type=pick(rng, ['scaling', 'offset']))
    vals = np.asarray(v.gen_env_vrtns(300.0, D, C, L))
    t.note(dims=(L, C, D), layer=('dev', 'chp', 'batch')[k])
    t.eq(vals.shape, (L, C, D), 'shape')
    n = (L * C * D, L * C, 1)[k]
    got = len(np.unique(vals))
    t.ok(n - n // 1000 <= got <= n, 'distinct draws', got=got, want=n)
