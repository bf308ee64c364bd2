"""The search for equivalent stress times: loop invariants of the vectorized minimisation, and the residue it minimises."""

import ast
from fractions import Fraction

import z3

from pyvc.interp import Brk, leaves_loop
from pyvc.ops import LOG10, POW10, elementwise

from .eqn import Eqn, eqn_apps
from .kit import *  # noqa: F403
from .kit import bind, contract, zeq
from .stress import *  # noqa: F403
from .stress import stub_loop_compute

ASSUMPTIONS = [
    'real arithmetic: floating point rounding inside the search is not modelled; residues are finite numbers',
    '10**x is strictly increasing and 10**log10(x) = x for x > 0',
    'the residue function is evaluated element by element (element i of its result depends on element i of its time argument)',
    'at most one million iterations; search bounds given with lower < upper (both positive for the logarithmic search)',
    'that the search ends before its iteration limit is not proved (bounded stand-in: the true time is found on generated laws)',
]
DEPENDS = ('C11.loop_compute',)
NAMES = ('a', 'b', 'x', 'fx', 'm', 'tol', 'tol2', 'completed_iters')
REL = z3.RealVal('11/1000000000')  # the relative part of the tolerance is 2**-26.5


class Law:
    """an unknown residue function, element by element; every call is recorded"""

    def __init__(self, sh, value):
        self.sh, self.value = sh, value
        self.key = ('tried', cur().fresh_id())

    def pyvc_call(self, ip, args, kwargs, kwmap):
        if len(args) != 1 or kwmap is not None:
            raise Unsupported('residue function called in another way')
        t = args[0]
        if not isinstance(t, ArrRef):
            raise Unsupported('residue function called with a number')
        ex = cur().extra
        r = elementwise_idx(t, self.sh, self.value)
        ex[self.key] = (*self.calls(), (ops.frozen(t), tuple(kwargs.items()), ops.frozen(r)))
        return r

    def calls(self):
        return cur().extra.get(self.key, ())


def elementwise_idx(t, sh, f):
    fz = ops.frozen(t)
    return ArrRef(sh, lambda idx: f(ops.felem(fz, tuple(idx), tuple(sh)), tuple(idx)))


def linear(e):
    """the term with products and quotients of unknowns replaced by unknowns of their own, or None when there are none"""
    memo, found = {}, []

    def is_val(x):
        return z3.is_rational_value(x) or z3.is_int_value(x)

    def go(x):
        if x.get_id() not in memo:
            r = x
            if z3.is_app(x) and x.num_args():
                kind = x.decl().kind()
                ch = [go(c) for c in x.children()]
                if kind == z3.Z3_OP_MUL and sum(not is_val(z3.simplify(c)) for c in ch) > 1 or kind == z3.Z3_OP_DIV and not is_val(z3.simplify(ch[1])):
                    r = z3.Real(f'nl!{cur().fresh_id()}')
                    found.append(r)
                else:
                    r = x.decl()(*ch)
            memo[x.get_id()] = (x, r)
        return memo[x.get_id()][1]

    r = go(e)
    return r if found else None


def stored(body):
    return {n.id for s in body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


class Search:
    """the loop rule: the invariant holds on entry, one arbitrary iteration preserves it, it is what is known afterwards"""

    def __init__(self, k, law, sh, i, lo, hi, precision, maxiter, log, monotone=None, star=None):
        self.k, self.law, self.sh, self.i, self.lo, self.hi, self.log = k, law, sh, i, lo, hi, log
        self.precision, self.maxiter, self.monotone, self.star = precision, maxiter, monotone, star
        self.exit, self.defs, self.exact = None, {}, []
        absolute = lambda y: z3.If(y >= 0, y, -y)  # noqa: E731
        M = z3.If(absolute(lo) >= absolute(hi), absolute(lo), absolute(hi))
        self.T = z3.Real(f'T!{k.run.fresh_id()}')  # no step leaves what was reached so far by more than this
        k.assume(self.T == 2 * (REL * M + precision.t / 2))

    # ---- values of the sample under consideration
    def at(self, v):
        if isinstance(v, ArrRef):
            if len(v.shape) != len(self.sh) or not all(ops.same_dim(p, q) for p, q in zip(v.shape, self.sh)):
                raise Unsupported('variable of the search has another shape')
            return rterm(v.at(self.i))
        if is_num(v):
            return rterm(v)
        raise Unsupported('variable of the search is not a number')

    def name(self, var, v):
        """give the sample's element of an assigned array a name of its own (defined by an equation)"""
        if not isinstance(v, ArrRef) or len(v.shape) != len(self.sh):
            return v
        fz = ops.frozen(v)
        e = fz.fn(self.i)
        t = term(e) if is_num(e) else None
        if t is None or not z3.is_app(t) or t.num_args() == 0:
            return v
        n = z3.Const(f'{var}!{self.k.run.fresh_id()}', t.sort())
        self.defs[n.get_id()] = (n, t)
        lin = linear(t)
        if lin is None:
            self.k.assume(n == t)
        else:
            self.k.assume(n == lin)
            self.exact.append(n == t)
        ids = [dim_t(j).get_id() for j in self.i]
        named = Sym(n, e.ty) if isinstance(e, Sym) else Sym(n, T_FLOAT)
        return ArrRef(fz.shape, lambda idx: named if [dim_t(j).get_id() for j in idx] == ids else fz.fn(idx), dtype=v.dtype)

    def ensure(self, name, goal, detail):
        """by linear reasoning if possible, else with the exact products and quotients"""
        run = self.k.run
        if not self.exact or run.valid(goal):
            return self.k.ensure(name, goal, detail)
        run.solver.push()
        try:
            for f in self.exact:
                run.solver.add(f)
            return self.k.ensure(name, goal, detail)
        finally:
            run.solver.pop()

    def time(self, x):
        return POW10(x) if self.log else x

    def value(self, x):
        """residue of this sample at the searched point x"""
        return rterm(self.law.value(Sym(self.time(x), T_FLOAT), self.i))

    def points(self, calls):
        """the searched points of recorded calls, for this sample"""
        out = []
        for t, kw, _ in calls:
            e = rterm(ops.felem(t, self.i, self.sh))
            if self.log:
                while e.get_id() in self.defs:
                    e = self.defs[e.get_id()][1]
                if not (z3.is_app(e) and e.decl().name() == 'pow10'):
                    raise Unsupported('logarithmic search over something else than powers of ten')
                e = e.arg(0)
            out.append(e)
        return out

    # ---- the invariant
    def invariant(self, vs, s):
        """s: the largest steps taken so far added up"""
        a, b, x, fx, m, tol, tol2, it = vs
        absx = z3.If(x >= 0, x, -x)
        out = {
            'range': z3.And(*[z3.And(self.lo - s <= y, y <= self.hi + s) for y in (a, b, x)]),
            'value': fx == self.value(x),
            'midpoint': m == (a + b) / 2,
            'tolerance': z3.And(tol > 0, tol <= self.precision.t / 2 + REL * absx, tol2 == 2 * tol),
            'counter': it >= 0,
        }
        if self.monotone:
            out['bracket'] = z3.And(a <= self.star, self.star <= b)
        return out

    def lemmas(self, points):
        """monotonicity of the law at the given points and the true time"""
        if self.monotone:
            pts, g = [*points, self.star], self.monotone
            for p in pts:
                for q in pts:
                    if p is not q:
                        self.k.assume(z3.And(z3.Implies(p < q, g(self.time(p)) < g(self.time(q))), z3.Implies(p == q, g(self.time(p)) == g(self.time(q)))))

    def __call__(self, ip, node, env):
        k, run = self.k, self.k.run
        missing = [n for n in NAMES if n not in env.vars]
        if missing:
            raise Unsupported(f'the search keeps its state in other variables (no {missing[0]})')
        if self.exit is not None:
            raise Unsupported('more than one loop in the search')
        read = lambda: [self.at(env.vars[n]) for n in NAMES]  # noqa: E731
        vs = read()
        points = self.points(self.law.calls())
        self.lemmas([vs[2], *points])
        zero = z3.RealVal(0)
        for n, g in self.invariant(vs, zero).items():
            k.ensure(f'entry.{n}', g, f'holds before the first iteration: {n}')
        k.ensure('entry.tried', z3.Or(*[vs[2] == p for p in points]), 'the estimate is a time that was tried')
        k.ensure('entry.best', z3.And(*[vs[3] <= self.value(p) for p in points]), 'no better time tried')

        # an arbitrary state in which the invariant holds
        changed, fresh = stored(node.body), {}
        for n in sorted(changed):
            v = env.vars.get(n, ABSENT)
            if v is ABSENT or isinstance(v, Poison):
                continue
            if isinstance(v, ArrRef):
                fresh[n] = k.arr(n, v.shape)
            elif isinstance(v, int) and not isinstance(v, bool) or isinstance(v, Sym) and z3.is_int(v.t):
                fresh[n] = k.int(n)
            elif is_num(v):
                fresh[n] = k.real(n)
            else:
                fresh[n] = Poison(f'{n} after some iterations')
        unknown = {n: Poison(f'{n} after some iterations') for n in changed if n not in fresh}
        env.vars.update(fresh)
        vs = read()
        s = z3.Real(f'slack!{run.fresh_id()}')
        k.assume(z3.And(s >= 0, s <= 1000000 * self.T, vs[-1] <= 1000000))
        for g in self.invariant(vs, s).values():
            k.assume(g)
        earlier = z3.Real(f'earlier!{run.fresh_id()}')  # the residue at any time tried so far
        k.assume(vs[3] <= earlier)
        breaks = leaves_loop(node.body)
        how = k.pick('iteration', 'exit', 'break') if breaks else k.pick('iteration', 'exit')
        if how != 'iteration':
            if truth(ip.ev(node.test, env)) != (how == 'break'):
                raise Infeasible
            if how == 'break':
                env.vars.update(unknown)
                start, heap, count = run.counter, dict(run.heap), len(self.law.calls())
                try:
                    ip.exec_block(node.body, env)
                    raise Infeasible
                except Brk:
                    same = len(self.law.calls()) == count and all(z3.eq(p, q) for p, q in zip(read(), vs, strict=True))
                    if not same or any(oid <= start and st is not heap.get(oid, st) for oid, st in run.heap.items()):
                        raise Unsupported('an iteration of the search is left in the middle') from None
            for cond, arr in cur().extra.get('foridx', ()):
                e = arr.fn(self.i)
                k.assume(z3.Implies(cond, e.t if isinstance(e, Sym) else z3.BoolVal(bool(e))))
            self.lemmas([vs[2]])
            env.vars.update(unknown)
            self.exit = vs, s, earlier
            return
        if not truth(ip.ev(node.test, env)):
            raise Infeasible
        env.vars.update(unknown)
        start, heap = run.counter, dict(run.heap)
        count, ip.on_assign = len(self.law.calls()), self.name
        try:
            ip.exec_block(node.body, env)
        except Brk:
            raise Infeasible from None
        ip.on_assign = None
        for oid, st in run.heap.items():
            if oid <= start and st is not heap.get(oid, st):
                raise Unsupported('an iteration of the search changes an object in place')
        new = read()
        us = self.points(self.law.calls()[count:])
        self.lemmas([vs[2], *us])
        hull_lo = z3.If(vs[0] <= vs[2], vs[0], vs[2])
        hull_hi = z3.If(vs[1] >= vs[2], vs[1], vs[2])
        d = '(one arbitrary iteration)'
        for u in us:
            self.ensure('iteration.step', z3.And(u >= hull_lo - vs[5], u <= hull_hi + vs[5]), f'a new time lies in the current interval, to the tolerance {d}')
        for n, g in self.invariant(new, s + self.T).items():
            self.ensure(f'iteration.{n}', g, f'invariant {n} preserved {d}')
        self.ensure('iteration.best', z3.And(new[3] <= earlier, *[new[3] <= self.value(u) for u in us]), f'no time tried so far is better {d}')
        self.ensure('iteration.tried', z3.Or(new[2] == vs[2], *[new[2] == u for u in us]), f'the estimate is a time that was tried {d}')
        self.ensure('iteration.ends', z3.And(rterm(self.maxiter) > vs[-1], new[-1] >= vs[-1] + 1), f'the iteration limit comes closer {d}')
        raise Infeasible


def search_setup(k):
    log = k.pick(False, True)
    sh = tuple(k.int(n, 1).t for n in ('L', 'C', 'D'))
    i = k.index(sh)
    precision, maxiter = k.real('precision'), k.int('maxiter', 0, 1000000)
    k.assume(precision.t > 0)
    lo, hi = k.real('lo'), k.real('hi')
    k.assume(lo.t < hi.t)
    if log:
        k.assume(lo.t > 0)
        k.assume(LOG10(lo.t) < LOG10(hi.t))
        blo, bhi = LOG10(lo.t), LOG10(hi.t)
    else:
        blo, bhi = lo.t, hi.t
    target = k.arr('target', sh)
    other = k.map(k.names('conds'), lambda n: k.arr('cond', sh))
    extra = {'target': target, 'other': other} if k.pick(True, False) else {'target': target}
    args = MapRef(layers=tuple(('set', n, v) for n, v in extra.items()))
    return log, sh, i, precision, maxiter, lo, hi, blo, bhi, extra, args


def run_search(k, law, search, args, lo, hi, precision, maxiter, log, i):
    k.ip.loop_rules['while'] = search
    r = k.call('minimize.minimize', law, args, (lo, hi), precision=precision, maxiter=maxiter, log_gold=log)
    r = k.returns('returns', r)
    if search.exit is None:
        raise Unsupported('the search is not a while loop')
    k.ensure('shape', isinstance(r, ArrRef) and len(r.shape) == 3 and all(ops.same_dim(a, b) for a, b in zip(r.shape, search.sh)), 'one time per sample')
    x = search.exit[0][2]
    k.ensure('result', rterm(r.at(i)) == search.time(x), 'the time returned is the final estimate')
    return r, x


@contract('C10.search', 'minimize.minimize')
def search(k):
    """every estimate lies in the search range (to the tolerance of the steps taken), is a time tried, the best of all times tried"""
    log, sh, i, precision, maxiter, lo, hi, blo, bhi, extra, args = search_setup(k)
    f = z3.Function(f'residue!{k.run.fresh_id()}', z3.RealSort(), *[z3.IntSort()] * 3, z3.RealSort())
    law = Law(sh, lambda t, idx: Sym(f(rterm(t), *[dim_t(j) for j in idx]), T_FLOAT))
    s = Search(k, law, sh, i, blo, bhi, precision, maxiter, log)
    _, x = run_search(k, law, s, args, lo, hi, precision, maxiter, log, i)
    vs, slack, earlier = s.exit
    k.ensure('arguments', all(dict(kw) == extra for _, kw, _ in law.calls()), 'the residue function gets exactly the given arguments')
    k.ensure('in_range', z3.And(x >= blo - slack, x <= bhi + slack), 'in the search range, to the tolerance of the steps taken')
    k.ensure('best', s.value(x) <= earlier, 'no time tried reproduces the degradation better')


@contract('C10.true_time', 'minimize.minimize')
def true_time(k):
    """for a strictly monotone law the true time of every sample stays between the brackets; a search that ends converged found it"""
    log, sh, i, precision, maxiter, lo, hi, blo, bhi, extra, args = search_setup(k)
    g = z3.Function(f'law!{k.run.fresh_id()}', z3.RealSort(), *[z3.IntSort()] * 3, z3.RealSort())
    star = z3.Real(f'true!{k.run.fresh_id()}')
    k.assume(z3.And(blo <= star, star <= bhi))
    sign = k.pick(1, -1)
    gi = lambda t: sign * g(t, *i)  # noqa: E731

    def value(t, idx):
        target = g(POW10(star) if log else star, *[dim_t(j) for j in idx])
        d = target - g(rterm(t), *[dim_t(j) for j in idx])
        return Sym(z3.If(d >= 0, d, -d), T_FLOAT)

    law = Law(sh, value)
    s = Search(k, law, sh, i, blo, bhi, precision, maxiter, log, gi, star)
    _, x = run_search(k, law, s, args, lo, hi, precision, maxiter, log, i)
    vs, _, _ = s.exit
    d = z3.If(x >= star, x - star, star - x)
    absx = z3.If(x >= 0, x, -x)
    k.assume(vs[-1] < maxiter.t)  # ended before the iteration limit
    k.ensure('found', d <= precision.t + 2 * REL * absx, 'the true time, within the search precision')


def equivalent(k, modes=('array', 'single')):
    """run the real search for equivalent times with the contract of minimize in place"""
    dims = dims3(k)
    sh = tuple(d.t for d in dims)
    unit = k.pick(*UNITS)
    eqn = Eqn('mech', k.names('params'), k.pick(*modes), sh, always=True)
    with k.region('device'):
        m = k.new('devices.DegMechMdl', eqn, None, k.num('unitary'), unit)
    if isinstance(m, Raised):
        raise Infeasible
    deg, init = k.arr('deg', sh), k.arr('init', sh)
    conds, lats = latent_arrays(k, 'conds', sh), latent_arrays(k, 'lats', sh)
    stub_loop_compute(k, sh)
    calls = []
    found = k.arr('found', sh)

    def minimize(ip, f, args, kwargs, kwmap):
        b = bind(f, args, kwargs, ('func', 'extra_args', 'bounds', 'precision', 'mach_eps', 'maxiter', 'log_gold'))
        if kwmap is not None:
            raise Unsupported('search called in another way')
        calls.append(b)
        return found

    k.ip.stubs['minimize.minimize'] = minimize
    i = k.index(sh)
    before = orig(deg, i)
    r = k.meth(m, 'calc_equiv_strs_time', deg, init, conds, lats, tuple(dims))
    return sh, unit, eqn, deg, conds, lats, calls, found, i, before, r


@contract('C10.residue', 'devices.DegMechMdl.calc_equiv_strs_time')
def residue(k, modes=('array', 'single')):
    """the search minimises |current degradation - the equation at the time with the sample's own values| over the attainable times"""
    sh, unit, eqn, deg, conds, lats, calls, found, i, before, r = equivalent(k, modes)
    r = k.returns('returns', r)
    if len(calls) != 1:
        raise Unsupported('the equivalent time is not found by one search')
    b = calls[0]
    ok = isinstance(r, ArrRef) and len(r.shape) == 3
    k.ensure('result', zeq(r.at(i), found.at(i)) if ok else False, 'the time found is returned')
    if not isinstance(b['bounds'], tuple) or len(b['bounds']) != 2 or not all(is_num(ops.num(x)) for x in b['bounds']):
        raise Unsupported('bounds of the search')
    lo, hi = (rterm(ops.num(x)) for x in b['bounds'])
    k.ensure('range', z3.And(lo > 0, lo <= rterm(Fraction(1, 100)), hi == rterm(longest(unit))), 'searched over the attainable times')
    k.ensure_soft('precision', z3.And(z3.BoolVal(b['log_gold'] is True), rterm(ops.num(b['precision'])) <= rterm(Fraction(1, 10**4)),
                                      rterm(ops.num(b['maxiter'])) >= 40), 'a search over orders of magnitude, fine enough')
    # the residue at any times
    if not isinstance(b['extra_args'], MapRef):
        raise Unsupported('arguments of the residue')
    extra = map_items(b['extra_args'])
    first = [*extra.values()]
    k.ensure('samples', isinstance(first[0], ArrRef) and len(first[0].shape) == 3 and all(ops.same_dim(p, q) for p, q in zip(first[0].shape, sh)),
             'one search per sample (shape of the first argument)')
    times = k.arr('times', sh)
    res = k._do(lambda: k.ip.call(b['func'], [times], extra))
    res = k.returns('residue.returns', res)
    ok = isinstance(res, ArrRef) and len(res.shape) == 3
    k.ensure('residue.shape', ok, 'one residue per sample')
    if not ok:
        raise Infeasible
    t = rterm(res.at(i))
    apps = [(c, at, app) for c, at, app in eqn_apps(t) if c.eqn is eqn and at is not None and all(z3.eq(dim_t(p), dim_t(q)) for p, q in zip(at, i))]
    k.ensure('residue.equation', bool(apps), f'residue is computed from the equation: {t}')
    if not apps:
        raise Infeasible
    c, _, app = apps[0]
    d = rterm(before) - app
    k.ensure('residue.value', t == z3.If(d >= 0, d, -d), 'distance of the equation from the current degradation of the sample')
    check_args(k, 'residue.argument', c, i, sh, {'time': times}, [lats, conds], eqn)


def longest(unit):
    return 10**10 * max(Fraction(1), Fraction(3600) / UNITS[unit])


def map_items(m):
    out = {}
    for lay in m.st:
        if lay[0] != 'set' or not isinstance(lay[1], str):
            raise Unsupported('arguments of the residue')
        out[lay[1]] = lay[2]
    if not out:
        raise Unsupported('arguments of the residue')
    return out


@contract('C10.failures', 'devices.FailMechMdl.calc_equiv_strs_time')
def failures(k):
    """hard failures have no stress time: always zero"""
    dims = dims3(k)
    sh = tuple(d.t for d in dims)
    m = k.new('devices.FailMechMdl', Eqn('mech', k.names('params'), 'array', sh), None, k.num('unitary'), 'h')
    if isinstance(m, Raised):
        raise Infeasible
    r = k.meth(m, 'calc_equiv_strs_time', k.arr('deg', sh), k.arr('init', sh), latent_arrays(k, 'conds', sh), latent_arrays(k, 'lats', sh), tuple(dims))
    r = k.returns('returns', r)
    ok = isinstance(r, ArrRef) and len(r.shape) == 3
    k.ensure('zero', zeq(r.at(k.index(sh)), 0) if ok else is_num(r) and zeq(r, 0), 'zero time')


@contract('C10.split', 'sim._sim_stress_step')
def split(k):
    """arithmetic of the contracts: a time found within a factor c of the true one gives, with the next phase added, a total time within c
    of the unsplit one"""
    t1, found, dt, c = (k.real(n).t for n in ('t1', 'found', 'dt', 'c'))
    k.assume(z3.And(t1 > 0, dt >= 0, c >= 1, found * c >= t1, found <= t1 * c))
    k.ensure('total', z3.And((found + dt) * c >= t1 + dt, found + dt <= (t1 + dt) * c), 'total stress time')
