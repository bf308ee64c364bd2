import numpy as np

from bounded import lib
from bounded.gen import pick

lib.load()
from gerabaldi.models import LatentVar, Normal, Gamma, Uniform, Deterministic  # noqa: E402
from gerabaldi.exceptions import UserConfigError  # noqa: E402

CLAUSES, clause = lib.registry()


def mk(rng, kind=None, **kw):
    kind = kind or pick(rng, ['normal', 'gamma', 'uniform'])
    a, b = float(np.round(rng.uniform(0.1, 9), 2)), float(np.round(rng.uniform(10, 20), 2))
    if kind == 'normal':
        return Normal(pick(rng, [a, 0, 0.0, -a, 1]), b, **kw)
    return (Gamma if kind == 'gamma' else Uniform)(a, b, **kw)


def params(v):
    return {Normal: lambda: ('Normal', v.mu, v.sigma), Gamma: lambda: ('Gamma', v.alpha, v.beta), Uniform: lambda: ('Uniform', v.start, v.stop)}[type(v)]()


ORDER = {'pymc': {'Normal': ('mu', 'sigma'), 'Gamma': ('alpha', 'beta'), 'Uniform': ('lower', 'upper')},
         'pyro': {'Normal': ('loc', 'scale'), 'Gamma': ('concentration', 'rate'), 'Uniform': ('low', 'high')}}


def unwrap(x):
    while isinstance(x, np.ndarray) and x.ndim == 0:
        x = x.item()
    return x


def leaf(r, fw):
    """-> (name, kind, p1, p2) of an exported distribution"""
    r = unwrap(r)
    if fw == 'pymc':
        kind = r.kind.split('.')[1]
        kw = dict(r.kw)
        nm = kw.get('name', r.args[0] if r.args else None)
        return (nm, kind) + tuple(kw[k] for k in ORDER[fw][kind])
    d = r.args[1]
    kind = d.kind.split('.')[1]
    return (r.args[0], kind) + tuple(d.kw[k] for k in ORDER[fw][kind])


def flat(r, op, fw, t):
    r = unwrap(r)
    if r.kind in ('mul', 'add'):
        t.eq(r.kind, op, 'layers combined by the variation operator')
        return flat(r.args[0], op, fw, t) + flat(r.args[1], op, fw, t)
    return [leaf(r, fw)]


@clause(150, funcs='LatentVar.cbi_export, RandomVar.get_cbi_form, Normal.set_centre, get_centre')
def export(rng, t):
    """export = dev (re-centred by the base) op chip op lot with the sampling parameters and distinct derived names; the
    variable itself is unchanged, however often it is exported"""
    vt = pick(rng, ['scaling', 'offset'])
    base = pick(rng, [None, None, 2.5, 0, 0.0, -3.0, 1])
    fw = pick(rng, ['pymc', 'pyro'])
    dev = mk(rng, 'normal' if base else None)
    chp, lot = (mk(rng) if rng.random() < 0.5 else None), (mk(rng) if rng.random() < 0.5 else None)
    kw = {'dev_vrtn_mdl': dev, 'chp_vrtn_mdl': chp, 'lot_vrtn_mdl': lot, 'deter_val': base, 'vrtn_type': vt}
    name = pick(rng, ['vth', 'x', 'a_0'])
    v = LatentVar(**kw, name=name)
    if rng.random() < 0.3:
        vt = pick(rng, ['scaling', 'offset'])
        v.vrtn_type = vt
    if rng.random() < 0.2 and chp is not None:
        v.chp_vrtn_mdl = None
        chp = None
    if rng.random() < 0.3:
        which = pick(rng, ['dev', 'chp', 'lot'])
        new = mk(rng, 'normal' if base and which == 'dev' else None)
        setattr(v, f'{which}_vrtn_mdl', new)
        dev, chp, lot = (new if which == a else o for a, o in (('dev', dev), ('chp', chp), ('lot', lot)))
    t.note(vrtn=vt, base=base, fw=fw, dev=params(dev), chp=chp and params(chp), lot=lot and params(lot), name=name)
    before = [params(d) for d in (dev, chp, lot) if d is not None]
    op = 'mul' if vt == 'scaling' else 'add'
    for rep in range(int(rng.integers(1, 4))):
        out = unwrap(v.cbi_export(fw))
        if fw == 'pymc' and out.kind == 'pymc.Deterministic':
            t.ok(chp is not None or lot is not None, 'plain device distribution exported directly')
            a = list(out.args)
            nm = out.kw.get('name', a[0] if a else None)
            t.eq(nm, name, 'combined variable carries the variable name')
            out = out.kw.get('var', a[1] if len(a) > 1 else None)
        got = flat(out, op, fw, t)
        k, p1, p2 = params(dev)
        if base:
            p1 = base * p1 if vt == 'scaling' else base + p1
        want = [(k, p1, p2)] + [params(d) for d in (chp, lot) if d is not None]
        t.ok(sorted(g[1:] for g in got) == sorted(want), f'distributions of export {rep}', got=got, want=want)
        names = [g[0] for g in got]
        t.ok(len(set(names)) == len(names) and all(isinstance(n, str) and n.startswith(name) for n in names), 'distinct names derived from the variable name', got=names)
        if fw == 'pymc' and len(names) > 1:
            t.ok(name not in names, 'layer names differ from the combined variable', got=names)
        t.ok([params(d) for d in (dev, chp, lot) if d is not None] == before, f'distributions unchanged by export {rep}', got=[params(d) for d in (dev, chp, lot) if d], want=before)
        t.ok(v.dev_vrtn_mdl is dev and v.deter_val == base and v.vrtn_type == vt and v.name == name, 'variable unchanged')
        if lot is not None:
            t.ok(v.lot_vrtn_mdl is lot, 'lot layer unchanged')
        if chp is not None:
            t.ok(v.chp_vrtn_mdl is chp, 'chip layer unchanged')


@clause(60, funcs='LatentVar.cbi_export, Normal.set_centre')
def failing(rng, t):
    """an export that the framework refuses (name used twice, no model context) leaves the variable as it was"""
    vt, base, fw = pick(rng, ['scaling', 'offset']), pick(rng, [None, 2.5, -3.0, 0, 1]), pick(rng, ['pymc', 'pyro'])
    dev = mk(rng, 'normal' if base else None)
    chp, lot = (mk(rng) if rng.random() < 0.5 else None), (mk(rng) if rng.random() < 0.5 else None)
    v = LatentVar(dev, chp, lot, deter_val=base, vrtn_type=vt, name='x')
    layers = [d for d in (dev, chp, lot) if d is not None]
    before = [params(d) for d in layers]
    n, err = int(rng.integers(1, 2 + 2 * len(layers))), pick(rng, [ValueError, TypeError])
    t.note(vrtn=vt, base=base, fw=fw, layers=before, refused_call=n, error=err.__name__)
    lib.FAULT[:] = [n, err]
    try:
        v.cbi_export(fw)
    except (ValueError, TypeError):
        pass
    finally:
        lib.FAULT[0] = None
    t.ok([params(d) for d in layers] == before, 'distributions after the failed export', got=[params(d) for d in layers], want=before)
    t.ok(all(d is None or getattr(v, f'{a}_vrtn_mdl') is d for a, d in (('dev', dev), ('chp', chp), ('lot', lot))), 'layers unchanged')
    t.ok(v.deter_val == base and v.vrtn_type == vt and v.name == 'x', 'variable unchanged')


@clause(30, funcs='LatentVar.cbi_export')
def refusals(rng, t):
    """a variable without a device distribution cannot be exported"""
    fw = pick(rng, ['pymc', 'pyro'])
    v = LatentVar(chp_vrtn_mdl=pick(rng, [None, Normal(1, 1)]), deter_val=pick(rng, [0, 2.5]), name='q')
    t.note(fw=fw)
    t.raises(UserConfigError, lambda: v.cbi_export(fw), 'deterministic variable refused')
    w = LatentVar(Normal(1, 1), name='q', deter_val=1)
    w.dev_vrtn_mdl = None
    t.raises(UserConfigError, lambda: w.cbi_export(fw), 'variable whose device distribution was removed refused')
    t.raises(NotImplementedError, lambda: LatentVar(Normal(1, 1), name='q').cbi_export('stan'), 'unknown framework refused')


@clause(30, funcs='LatentVar.cbi_export, gen_latent_vals')
def sampling_unaffected(rng, t):
    """samples drawn after exporting equal those of an identical variable that was never exported"""
    seed = int(rng.integers(0, 1000))
    vt, base = pick(rng, ['scaling', 'offset']), pick(rng, [2.5, 0, -1.0, None, 1])
    mu = pick(rng, [0, 0.0, 1.5, -2])
    mk2 = lambda: LatentVar(Normal(mu, 0.5, test_seed=seed), Normal(1, 0.1, test_seed=seed + 1), deter_val=base, vrtn_type=vt, name='z')  # noqa: E731
    a, b = mk2(), mk2()
    t.note(seed=seed, base=base, mu=mu, vrtn=vt)
    for _ in range(int(rng.integers(1, 3))):
        a.cbi_export(pick(rng, ['pymc', 'pyro']))
    t.eq(a.gen_latent_vals(3, 2, 2), b.gen_latent_vals(3, 2, 2), 'samples after export')
