from datetime import timedelta

import numpy as np

from bounded import lib
from bounded.gen import dims

lib.load()
from gerabaldi import simulate  # noqa: E402
from gerabaldi.math import minimize  # noqa: E402
from gerabaldi.models import *  # noqa: E402,F403

CLAUSES, clause = lib.registry()


def curve(rng, shape):
    """a strictly increasing degradation law, vectorized over samples"""
    A, n = rng.uniform(0.2, 5, shape), rng.uniform(0.2, 1.2, shape)
    k = int(rng.integers(3))
    if k == 0:
        return (lambda tm: A * tm**n), f'A*t^n {A.ravel()[:4]} {n.ravel()[:4]}'
    if k == 1:
        return (lambda tm: A * np.log1p(tm / (10 * n))), 'A*log(1+t/c)'
    return (lambda tm: A * tm**n + 0.3 * n * tm**0.5), 'A*t^n+b*sqrt(t)'


@clause(60, funcs='minimize')
def search_result(rng, t):
    """the time found is inside the search range (to search precision) and its residue is the smallest among all times tried
    for that sample; for strictly monotone laws it is the true time for each sample of the array"""
    shape = dims(rng)
    f, desc = curve(rng, shape)
    lo, hi = 1e-3, 1e10
    true = 10 ** rng.uniform(-1.5, 7, shape)
    target = f(true)
    tried = []

    def residue(time, target):
        tried.append(np.array(time, dtype=float))
        return np.abs(target - f(time))

    t.note(law=desc, shape=shape, true=true)
    got = minimize(residue, extra_args={'target': target}, bounds=(lo, hi), maxiter=50, log_gold=True)
    t.eq(np.shape(got), shape, 'one time per sample')
    eps = 10**1e-4
    t.ok(np.all((got >= lo / eps) & (got <= hi * eps)), 'found times within the search range', got=got)
    best = np.min([np.abs(target - f(x)) for x in tried], axis=0)
    res = np.abs(target - f(got))
    t.ok(np.all(res <= best + 1e-9 * np.abs(target)), 'no tried time reproduces the degradation better', residue=res, best=best)
    t.ok(np.all(np.abs(np.log10(got) - np.log10(true)) <= 1e-3), 'true equivalent time found', got=got)


@clause(30, funcs='minimize')
def search_linear(rng, t):
    """without logarithmic search: result in range, best of all tried, and the true minimum for unimodal functions"""
    shape = dims(rng)
    c = rng.uniform(-3, 7, shape)
    p = float(rng.uniform(1.0, 3.0))
    tried = []

    def f(x, c):
        tried.append(np.array(x))
        return np.abs(x - c) ** p

    t.note(centre=c, p=p)
    got = minimize(f, extra_args={'c': c}, bounds=(-5.0, 10.0), maxiter=80)
    t.ok(np.all((got >= -5 - 1e-4) & (got <= 10 + 1e-4)), 'in range', got=got)
    res = np.abs(got - c) ** p
    best = np.min([np.abs(x - c) ** p for x in tried], axis=0)
    t.ok(np.all(res <= best + 1e-12), 'best of all tried', residue=res, best=best)
    t.ok(np.all(np.abs(got - c) <= 1e-2), 'minimum found', got=got)


@clause(30, funcs='minimize, DegMechMdl.calc_equiv_strs_time')
def samples_independent(rng, t):
    """the equivalent time of a sample does not depend on which other samples are in the array"""
    n = int(rng.integers(2, 6))
    A, e = rng.uniform(0.2, 5, (1, 1, n)), rng.uniform(0.2, 1.0, (1, 1, n))
    mdl = DegMechMdl(lambda time, temp, a, e: a * temp * time**e, time_unit='h', a=LatentVar(deter_val=1), e=LatentVar(deter_val=1))
    temp = rng.uniform(0.5, 2, (1, 1, n))
    true = 10 ** rng.uniform(-1, 6, (1, 1, n))
    deg = A * temp * true**e
    t.note(true=true, A=A, e=e)
    all_ = mdl.calc_equiv_strs_time(deg, deg * 0, {'temp': temp}, {'a': A, 'e': e}, (1, 1, n))
    t.ok(np.all(np.abs(np.log10(all_ / true)) <= 1e-3), 'true time for every sample', got=all_)
    for k in range(n):
        sl = lambda x: x[:, :, k : k + 1]  # noqa: E731
        one = mdl.calc_equiv_strs_time(sl(deg), sl(deg) * 0, {'temp': sl(temp)}, {'a': sl(A), 'e': sl(e)}, (1, 1, 1))
        t.ok(abs(np.log10(one / sl(all_)).item()) <= 1e-3, f'sample {k} alone and in the array agree', alone=one, together=sl(all_))


@clause(20, funcs='simulate, DegMechMdl.calc_equiv_strs_time, MechMdl.calc_deg_vals')
def split_phase(rng, t):
    """splitting a stress phase into consecutive phases under the same conditions gives the same degradation"""
    n, A = float(rng.uniform(0.25, 1.0)), float(rng.uniform(0.5, 3))
    u = ['hours', 'seconds', 'days'][int(rng.integers(3))]
    dev = lambda: DeviceMdl({'p': DegPrmMdl({'m': DegMechMdl(lambda time, temp, a: a * temp * time**n, time_unit=u, a=LatentVar(Uniform(0.5, 2, test_seed=5)))})})  # noqa: E731
    total = timedelta(hours=int(rng.integers(100, 3000)))
    k = int(rng.integers(2, 6))
    cuts = np.sort(rng.uniform(0.05, 0.95, k - 1))
    parts = np.diff(np.concatenate([[0], cuts, [1]]))
    if parts.min() < 0.01:
        raise lib.Skip
    conds = {'temp': A}
    t.note(n=n, total=total, parts=parts, unit=u)
    one = TestSpec([StrsSpec(conds, total), MeasSpec({'p': 3}, conds)], 2, 2)
    many = TestSpec([StrsSpec(conds, total * float(p)) for p in parts] + [MeasSpec({'p': 3}, conds)], 2, 2)
    a = simulate(one, dev(), PhysTestEnv()).measurements['measured'].to_numpy(float)
    b = simulate(many, dev(), PhysTestEnv()).measurements['measured'].to_numpy(float)
    t.ok(np.all(np.abs(a - b) <= 2e-3 * np.abs(a)), 'split and unsplit stress agree', unsplit=a, split=b)


@clause(4, funcs='minimize')
def many_samples(rng, t):
    """the search is as precise for each of thousands of samples as it is for one"""
    n = int(rng.integers(2000, 12000))
    shape = (1, 1, n)
    A, e = rng.uniform(0.2, 5, shape), rng.uniform(0.2, 1.2, shape)
    true = 10 ** rng.uniform(-1.5, 7, shape)
    t.note(n=n)
    got = minimize(lambda time, target: np.abs(target - A * time**e), extra_args={'target': A * true**e}, bounds=(1e-3, 1e10), maxiter=50, log_gold=True)
    t.ok(np.all(np.abs(np.log10(got) - np.log10(true)) <= 1e-3), 'true equivalent time found for every sample', worst=np.max(np.abs(np.log10(got / true))))
    c = rng.uniform(-3, 7, shape)
    c[0, 0, 0] = 6.999
    got = minimize(lambda x, c: np.abs(x - c), extra_args={'c': c}, bounds=(-5.0, 10.0), maxiter=80)
    t.ok(np.all(np.abs(got - c) <= 1e-3), 'minimum found for every sample', worst=np.max(np.abs(got - c)))
