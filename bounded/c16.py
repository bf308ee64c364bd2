import numpy as np

from bounded import lib
from bounded.gen import pick

lib.load()
from gerabaldi.models import Normal, Gamma, Uniform, Deterministic  # noqa: E402

CLAUSES, clause = lib.registry()


def mk(rng, kind, **kw):
    if kind == 'normal':
        a, b = float(np.round(rng.uniform(-50, 50), 2)), float(np.round(rng.uniform(0.1, 9), 2))
        return Normal(a, b, **kw), ('mu', 'sigma'), (a, b)
    if kind == 'gamma':
        a, b = float(np.round(rng.uniform(0.5, 9), 2)), float(np.round(rng.uniform(0.2, 8), 2))
        return Gamma(a, b, **kw), ('alpha', 'beta'), (a, b)
    a, b = float(np.round(rng.uniform(-9, 0), 2)), float(np.round(rng.uniform(0.5, 9), 2))
    return Uniform(a, b, **kw), ('start', 'stop'), (a, b)


def ref(kind, seed, prm, n):
    g = np.random.default_rng(seed)
    a, b = prm
    if kind == 'normal':
        return g.normal(a, b, n)
    if kind == 'gamma':
        return g.gamma(a, 1 / b, n)
    return g.uniform(a, b, n)


def moments(kind, prm):
    a, b = prm
    if kind == 'normal':
        return a, b
    if kind == 'gamma':
        return a / b, a**0.5 / b
    return (a + b) / 2, (b - a) / 12**0.5


@clause(60, funcs='RandomVar.__init__, sample, _params_for_numpy')
def distribution(rng, t):
    """sample(n) draws n independent values of the declared distribution with the current parameters"""
    kind = pick(rng, ['normal', 'gamma', 'uniform'])
    v, names, prm = mk(rng, kind, test_seed=int(rng.integers(1, 10**6)))
    if rng.random() < 0.5:
        w, _, prm = mk(rng, kind)
        if rng.random() < 0.6:
            v.sample(int(rng.integers(1, 5)))
        for n, x in zip(names, prm):
            setattr(v, n, x)
    t.note(kind=kind, params=prm)
    N = 40000
    s = v.sample(N)
    t.eq(np.shape(s), (N,), 'requested number of values')
    mean, sd = moments(kind, prm)
    t.ok(abs(np.mean(s) - mean) < 6 * sd / N**0.5, 'mean of the declared distribution', got=np.mean(s), want=mean)
    t.ok(abs(np.std(s) / sd - 1) < 0.08, 'spread of the declared distribution', got=np.std(s), want=sd)
    if kind == 'gamma':
        t.ok(np.all(s >= 0), 'gamma values are positive')
        skew = np.mean(((s - mean) / sd) ** 3)
        t.ok(abs(skew - 2 / prm[0] ** 0.5) < 0.5 * (1 + 2 / prm[0] ** 0.5), 'gamma skewness (shape parameter)', got=skew)
    if kind == 'uniform':
        t.ok(np.all((s >= prm[0]) & (s <= prm[1])), 'uniform values within bounds')
        t.ok(np.max(s) > prm[1] - 0.01 * (prm[1] - prm[0]) and np.min(s) < prm[0] + 0.01 * (prm[1] - prm[0]), 'bounds reached')
        t.ok(abs(np.mean(((s - mean) / sd) ** 4) - 1.8) < 0.1, 'flat distribution')
    if kind == 'normal':
        t.ok(abs(np.mean(((s - mean) / sd) ** 4) - 3) < 0.4, 'normal kurtosis')
    t.ok(len(np.unique(s)) > 0.99 * N, 'draws are independent, not repeated')
    t.ok(abs(np.corrcoef(s[1:], s[:-1])[0, 1]) < 0.04, 'draws are not serially correlated')
    t.eq(np.shape(v.sample()), (1,), 'one value by default')


@clause(60, funcs='RandomVar.__init__, sample')
def seeded(rng, t):
    """equal parameters and seed give identical sequences, for every seed including zero; without a seed they differ"""
    kind = pick(rng, ['normal', 'gamma', 'uniform'])
    seed = pick(rng, [0, 0, 1, 42, int(rng.integers(0, 2**31))])
    a, names, prm = mk(rng, kind, test_seed=seed)
    a.name = pick(rng, [None, 'first'])
    b = type(a)(*prm, name=pick(rng, [None, 'second', 'x_dev']), test_seed=seed)
    qs = [int(rng.integers(1, 6)) for _ in range(3)]
    t.note(kind=kind, seed=seed, params=prm, quantities=qs)
    sa, sb = [a.sample(q) for q in qs], [b.sample(q) for q in qs]
    t.ok(all(np.array_equal(x, y) for x, y in zip(sa, sb)), 'identical sequences', a=sa, b=sb)
    flat = np.concatenate(sa)
    t.eq(len(set(flat.tolist())), len(flat), 'successive draws continue the sequence')
    c = type(a)(*prm, test_seed=seed + 1)
    t.ok(not np.array_equal(c.sample(qs[0]), sa[0]), 'another seed gives other values')
    d, e = type(a)(*prm), type(a)(*prm)
    t.ok(not np.array_equal(d.sample(3), e.sample(3)), 'unseeded variables are independent')


@clause(20, funcs='Deterministic.sample')
def deterministic(rng, t):
    """Deterministic(x).sample(n) is n times x, also after changing the value"""
    x, n = pick(rng, [0, 1, 2.5, -3.0, 1e-9]), int(rng.integers(1, 9))
    t.note(x=x, n=n)
    v = Deterministic(x, test_seed=pick(rng, [None, 0, 3]))
    t.eq(v.sample(n), np.full(n, x), 'constant samples')
    v.value = x + 1
    t.eq(v.sample(n), np.full(n, x + 1), 'constant samples after a change')
    t.eq(Deterministic().sample(), np.zeros(1), 'default is zero')


@clause(50, funcs='RandomVar.get_cbi_form, _get_dist_params, _params_for_pymc, _params_for_pyro')
def inference_params(rng, t):
    """the distribution handed to an inference framework has the parameters the variable samples with, its name and data"""
    kind = pick(rng, ['normal', 'gamma', 'uniform'])
    v, names, prm = mk(rng, kind, name=pick(rng, ['x', 'vth_dev', None]))
    if rng.random() < 0.5:
        _, _, prm = mk(rng, kind)
        for n, x in zip(names, prm):
            setattr(v, n, x)
    t.note(kind=kind, params=prm)
    obs = pick(rng, [None, np.array([1.0, 2.0])])
    pm = v.get_cbi_form('pymc', observed=obs)
    want = {'normal': ('mu', 'sigma'), 'gamma': ('alpha', 'beta'), 'uniform': ('lower', 'upper')}[kind]
    t.eq(pm.kind, 'pymc.' + kind.capitalize(), 'pymc distribution')
    kw = dict(pm.kw)
    nm = kw.pop('name', pm.args[0] if pm.args else None)
    ob = kw.pop('observed', None)
    t.ok(nm == v.name and ob is obs, 'name and observed data')
    t.ok({k: kw.get(k) for k in want} == dict(zip(want, prm)) and set(kw) == set(want), 'pymc parameters', got=kw, want=dict(zip(want, prm)))
    py = v.get_cbi_form('pyro')
    t.eq(py.kind, 'pyro.sample', 'pyro sample site')
    t.eq(py.args[0], v.name, 'pyro name')
    d = py.args[1]
    want = {'normal': ('loc', 'scale'), 'gamma': ('concentration', 'rate'), 'uniform': ('low', 'high')}[kind]
    t.eq(d.kind, 'dist.' + kind.capitalize(), 'pyro distribution')
    got = dict(d.kw)
    for k, x in zip(want, d.args):
        got[k] = x
    t.ok(got == dict(zip(want, prm)), 'pyro parameters', got=got, want=dict(zip(want, prm)))
    t.raises(NotImplementedError, lambda: v.get_cbi_form('stan'), 'unknown framework refused')
    dv = Deterministic(3)
    t.raises(NotImplementedError, lambda: dv.get_cbi_form('pymc'), 'deterministic variables have no framework form')
    t.raises(NotImplementedError, lambda: dv.get_cbi_form('pyro'), 'deterministic variables have no framework form')
