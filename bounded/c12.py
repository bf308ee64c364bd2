import numpy as np

from bounded import lib
from bounded.gen import Enc, offsets, primes, dims, pick

lib.load()
from gerabaldi.models import LatentVar, Deterministic, Normal, Gamma, Uniform  # noqa: E402
from gerabaldi.exceptions import InvalidTypeError, UserConfigError  # noqa: E402

CLAUSES, clause = lib.registry()
N = 80
PR = primes(2, 200)
PRIMES = {'dev': PR[12:12 + 64], 'chp': PR[4:12] + PR[80:100], 'lot': PR[0:4] + PR[100:105]}
OFF = {'dev': 3.0, 'chp': 3e3, 'lot': 3e6}


def enc(layer, vt, rng):
    if vt == 'offset':
        return Enc(offsets(OFF[layer], 64, rng))
    v = [float(p) for p in PRIMES[layer]]
    return Enc([v[int(i)] for i in rng.permutation(len(v))])


def factor(v):
    f, out = int(round(v)), []
    for p in PR:
        while f % p == 0:
            out.append(p)
            f //= p
    return out, f


def decode(v, vt, defined, base):
    """-> {layer: draw} or None when v is not base combined with one draw of every defined layer"""
    if vt == 'offset':
        v = round(v - (base or 0.0), 6)
        out, rem = {}, v
        for layer in ('lot', 'chp', 'dev'):
            k = int(rem // OFF[layer])
            out[layer] = k
            rem -= k * OFF[layer]
        if abs(rem) > 1e-6:
            return None
        for layer in out:
            if (out[layer] > 0) != (layer in defined) or out[layer] > 64:
                return None
        return out
    v = v / (base if base is not None else 1.0)
    if abs(v - round(v)) > 1e-6 * abs(v) or v < 1:
        return None
    fs, rest = factor(v)
    if rest != 1 or len(fs) != len(defined):
        return None
    out = {}
    for f in fs:
        for layer in PRIMES:
            if f in PRIMES[layer]:
                if layer in out or layer not in defined:
                    return None
                out[layer] = f
    return out if len(out) == len(defined) else None


def check_layers(t, vals, vt, defined, base, layers, msg):
    L, C, D = vals.shape
    codes = np.empty(vals.shape, dtype=object)
    for idx in np.ndindex(*vals.shape):
        codes[idx] = decode(float(vals[idx]), vt, defined, base)
        t.ok(codes[idx] is not None, f'{msg}: value is base combined with one draw per defined layer', value=vals[idx], index=idx, base=base, vrtn=vt, defined=sorted(defined))
    for layer, group in layers.items():
        if layer not in defined:
            continue
        by = {}
        for idx in np.ndindex(*vals.shape):
            by.setdefault(group(idx), set()).add(codes[idx][layer])
        t.ok(all(len(s) == 1 for s in by.values()), f'{msg}: {layer} draw is shared within its group', groups={str(k): sorted(v) for k, v in by.items()})
        t.ok(len({next(iter(s)) for s in by.values()}) == len(by), f'{msg}: {layer} draws differ between groups')


GROUP = {'dev': lambda i: i, 'chp': lambda i: i[:2], 'lot': lambda i: i[:1]}


def rand_dims(rng):
    return int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 5))


@clause(80, funcs='LatentVar.__init__, __setattr__, gen_latent_vals')
def layers(rng, t):
    """gen_latent_vals(d, c, l) has shape (l, c, d) and every value is base (op) dev draw (op) chip draw (op) lot draw"""
    vt = pick(rng, ['scaling', 'offset'])
    defined = {l for l in ('dev', 'chp', 'lot') if rng.random() < 0.65}
    base = float(rng.integers(-3, 8)) + 0.5 if rng.random() < 0.5 or 'dev' not in defined else None
    if base is not None and rng.random() < 0.1 and vt == 'offset':
        base = 0
    kw = {f'{l}_vrtn_mdl': enc(l, vt, rng) for l in defined}
    if base is not None:
        kw['deter_val'] = base
    if vt != 'scaling' or rng.random() < 0.5:
        kw['vrtn_type'] = vt
    L, C, D = rand_dims(rng)
    t.note(vrtn_type=kw.get('vrtn_type'), defined=sorted(defined), base=base, dims=(L, C, D))
    if base is not None and base < 0 and vt == 'scaling':
        pass
    v = LatentVar(**kw)
    vals = np.asarray(v.gen_latent_vals(D, C, L))
    t.eq(vals.shape, (L, C, D), 'shape lot x chip x device')
    check_layers(t, vals, vt, defined, base, GROUP, 'sample')


@clause(80, funcs='LatentVar.__setattr__, gen_latent_vals')
def attribute_histories(rng, t):
    """the layer rule holds after any sequence of changes to variation type, layers, base and name"""
    cur = {'vt': pick(rng, ['scaling', 'offset']), 'base': None}
    defd = {l for l in ('dev', 'chp', 'lot') if rng.random() < 0.5} | {'dev'}
    v = LatentVar(**{f'{l}_vrtn_mdl': enc(l, cur['vt'], rng) for l in defd}, vrtn_type=cur['vt'])
    hist = [('init', cur['vt'], sorted(defd))]
    for _ in range(int(rng.integers(1, 7))):
        k = int(rng.integers(6))
        if k == 0:
            new = pick(rng, ['scaling', 'offset'])
            v.vrtn_type = new
            cur['vt'] = new
            hist.append(('vrtn_type', new))
        elif k == 1:
            l = pick(rng, ['dev', 'chp', 'lot'])
            setattr(v, f'{l}_vrtn_mdl', None)
            defd.discard(l)
            hist.append((l, None))
        elif k == 2:
            l = pick(rng, ['dev', 'chp', 'lot'])
            setattr(v, f'{l}_vrtn_mdl', enc(l, cur['vt'], rng))
            defd.add(l)
            hist.append((l, 'enc'))
        elif k == 3:
            cur['base'] = pick(rng, [None, 2.5, 7.0, 0.5])
            v.deter_val = cur['base']
            hist.append(('deter_val', cur['base']))
        elif k == 4:
            nm = pick(rng, ['x', 'vth', None])
            v.name = nm
            hist.append(('name', nm))
        else:
            bad = pick(rng, ['mult', '', None, 'Scaling', 'offsets', 1])
            t.raises(InvalidTypeError, lambda: setattr(v, 'vrtn_type', bad), 'invalid variation type refused')
            hist.append(('bad', bad))
    t.note(history=hist)
    t.eq(v.vrtn_type, cur['vt'], 'variation type')
    for l in defd:
        setattr(v, f'{l}_vrtn_mdl', enc(l, cur['vt'], rng))
    L, C, D = rand_dims(rng)
    vals = np.asarray(v.gen_latent_vals(D, C, L))
    t.eq(vals.shape, (L, C, D), 'shape')
    check_layers(t, vals, cur['vt'], defd, cur['base'], GROUP, f'after {hist}')


@clause(20, funcs='LatentVar.__init__')
def refusals(rng, t):
    """invalid variation types and variables with neither base nor device distribution are refused"""
    bad = pick(rng, ['mult', '', 'Scaling', 'offsets', None, 0])
    t.note(bad=bad)
    t.raises(InvalidTypeError, lambda: LatentVar(deter_val=1, vrtn_type=bad), 'invalid variation type')
    kw = pick(rng, [{}, {'chp_vrtn_mdl': Normal(1, 0)}, {'lot_vrtn_mdl': Normal(1, 0)}, {'chp_vrtn_mdl': Normal(1, 0), 'lot_vrtn_mdl': Normal(1, 0), 'name': 'x'}])
    t.raises(UserConfigError, lambda: LatentVar(**kw), f'neither base nor device distribution: {sorted(kw)}')
    for b in (0, 0.0, 3):
        t.eq(LatentVar(deter_val=b, vrtn_type='offset').gen_latent_vals(2, 1, 1), np.full((1, 1, 2), b), f'base value {b} alone is enough')


@clause(20, funcs='LatentVar.gen_latent_vals')
def zero_base(rng, t):
    """a base of zero is a base: scaling layers leave it at zero, offset layers add to it"""
    defined = [l for l in ('dev', 'chp', 'lot') if rng.random() < 0.65]
    L, C, D = rand_dims(rng)
    base = pick(rng, [0, 0.0])
    t.note(defined=defined, base=base, dims=(L, C, D))
    v = LatentVar(deter_val=base, **{f'{l}_vrtn_mdl': enc(l, 'scaling', rng) for l in defined})
    t.eq(np.asarray(v.gen_latent_vals(D, C, L), float), np.zeros((L, C, D)), 'scaled zero is zero')
    v = LatentVar(deter_val=1.5, **{f'{l}_vrtn_mdl': enc(l, 'scaling', rng) for l in defined})
    v.deter_val = base
    t.eq(np.asarray(v.gen_latent_vals(D, C, L), float), np.zeros((L, C, D)), 'zero set later scales to zero')


@clause(20, funcs='LatentVar.__init__, __setattr__, gen_latent_vals')
def shared_distribution(rng, t):
    """the same distribution object may serve several layers: each layer still contributes its own variation"""
    v = float(rng.integers(2, 6))
    vt = pick(rng, ['scaling', 'offset'])
    use = pick(rng, ['dev', 'chp', 'lot'], int(rng.integers(2, 4)))
    t.note(value=v, vrtn_type=vt, layers=use)
    rv = Deterministic(v)
    L, C, D = rand_dims(rng)
    want = 7.0 * v ** len(use) if vt == 'scaling' else 7.0 + v * len(use)
    m = LatentVar(**{f'{l}_vrtn_mdl': rv for l in use}, vrtn_type=vt, deter_val=7.0)
    t.close(np.asarray(m.gen_latent_vals(D, C, L), float), np.full((L, C, D), want), 'given at construction', rtol=1e-12)
    m = LatentVar(deter_val=7.0, vrtn_type=vt)
    for l in use:
        setattr(m, f'{l}_vrtn_mdl', rv)
    t.close(np.asarray(m.gen_latent_vals(D, C, L), float), np.full((L, C, D), want), 'assigned one by one', rtol=1e-12)


@clause(3, funcs='LatentVar.gen_latent_vals')
def many_samples(rng, t):
    """every lot, chip and device has a draw of its own, however many there are"""
    L, C, D = (int(x) for x in rng.permutation([int(rng.integers(2, 9)), int(rng.integers(10, 40)), int(rng.integers(50, 150))]))
    v = LatentVar(*[Normal(5, 0.5) if j == k else None for k in [int(rng.integers(3))] for j in range(3)], deter_val=2.0, vrtn_type=pick(rng, ['scaling', 'offset']))
    vals = np.asarray(v.gen_latent_vals(D, C, L))
    k = [m is not None and type(m) is Normal for m in (v.dev_vrtn_mdl, v.chp_vrtn_mdl, v.lot_vrtn_mdl)].index(True)
    t.note(dims=(L, C, D), layer=('dev', 'chp', 'lot')[k])
    t.eq(vals.shape, (L, C, D), 'shape')
    n = (L * C * D, L * C, L)[k]
    got = len(np.unique(vals))
    t.ok(n - n // 1000 <= got <= n, 'distinct draws', got=got, want=n)
