"""Random variables: declared distribution, seeds, export parameters."""

import z3

from .kit import *  # noqa: F403
from .kit import contract, zeq

ASSUMPTIONS = ['numpy Generator.normal/gamma/uniform draw independent values of the distribution their arguments describe, one per position; '
               'generators made with equal seeds produce equal sequences, unseeded ones independent sequences',
               'pymc.Normal(mu, sigma), Gamma(alpha, beta), Uniform(lower, upper) and pyro Normal(loc, scale), Gamma(concentration, rate), '
               'Uniform(low, high) are the distributions of those names']

KINDS = {'Normal': ('normal', 'mu', 'sigma'), 'Gamma': ('gamma', 'alpha', 'beta'), 'Uniform': ('uniform', 'start', 'stop')}


def params(k, kind, tag):
    a, b = k.num(f'{tag}a'), k.num(f'{tag}b')
    if kind == 'Normal':
        k.assume(b.t > 0)
    elif kind == 'Gamma':
        k.assume(z3.And(a.t > 0, b.t > 0))
    else:
        k.assume(a.t < b.t)
    return a, b


def make(k, kind, prm, **kw):
    _, p1, p2 = KINDS[kind]
    return k.new(f'random_vars.{kind}', *prm, **kw) if k.pick(True, False) else k.new(f'random_vars.{kind}', **{p1: prm[0], p2: prm[1]}, **kw)


def rename_params(k, v, kind):
    """the user changes the parameters afterwards (or not)"""
    _, p1, p2 = KINDS[kind]
    prm = params(k, kind, 'n')
    for p, x in zip((p1, p2), prm):
        k.returns('settable', k.set(v, p, x))
    return prm


def canonical(dist, prm):
    """numpy call -> (family, p1, p2) in the parameters of the class"""
    z = {a: rterm(b) for a, b in prm.items()}
    if dist == 'normal':
        return z['loc'], z['scale']
    if dist == 'gamma':
        return z['shape'], z['scale']
    return z['low'], z['high']


def check_sample(k, r, kind, prm, n, tag):
    """the array r holds n independent draws of the distribution; returns the draw function"""
    dist = KINDS[kind][0]
    ok = isinstance(r, ArrRef) and len(r.shape) == 1
    k.ensure(f'{tag}.count', dim_t(r.shape[0]) == (n if isinstance(n, int) else n.t) if ok else False, 'the requested number of values')
    if not ok:
        raise Infeasible
    (i,) = k.index(r.shape)
    t = rterm(r.at((i,)))
    ds = [d for d in k.run.extra.get('rng', ())]
    apps = [(d, e) for d in ds for e in apps_of(t, d)]
    ok = len(apps) == 1 and apps[0][0].dist == dist
    k.ensure(f'{tag}.distribution', ok, f'one draw of numpy {dist} per value; found {[(d.dist, str(e)) for d, e in apps]}')
    if not ok:
        raise Infeasible
    d, e = apps[0]
    j = k.index(r.shape, 'j')[0]
    # distinct positions use distinct draws
    if e.num_args():
        e2 = z3.substitute(e, (i, j))
        same = z3.And(*[a == b for a, b in zip(e.children(), e2.children())])
        k.ensure(f'{tag}.independent', z3.Implies(i != j, z3.Not(same)), 'each position holds its own draw')
    else:
        k.ensure(f'{tag}.independent', dim_t(r.shape[0]) == 1, 'each position holds its own draw')
    x = z3.Real('draw')
    body = z3.substitute(t, (e, x))
    A = z3.simplify(z3.substitute(body, (x, z3.RealVal(1))) - z3.substitute(body, (x, z3.RealVal(0))))
    B = z3.substitute(body, (x, z3.RealVal(0)))
    p1, p2 = canonical(dist, d.params)
    a, b = (rterm(q) for q in prm)
    affine = body == A * x + B
    if dist == 'normal':
        goal = z3.And(affine, A * p1 + B == a, z3.Or(A * p2 == b, -A * p2 == b))
    elif dist == 'gamma':
        goal = z3.And(affine, B == 0, p1 == a, A * p2 * b == 1)
    else:
        goal = z3.And(affine, A * p1 + B == a, A * p2 + B == b)
    k.ensure(f'{tag}.parameters', goal, f'distribution parameters: numpy got {d.params}')
    return d


def apps_of(t, d):
    found, seen, todo = [], set(), [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().name().startswith(f'draw!{d.tag}!'):
            found.append(e)
        todo.extend(e.children())
    return found


@contract('C16.sample', 'random_vars.RandomVar.sample')
def sample(k):
    """sample(n) is n draws of the declared distribution with the current parameters, continuing one seeded sequence"""
    kind = k.pick(*KINDS)
    prm = params(k, kind, 'p')
    seed = k.pick(None, k.int('seed', 0), 0)
    kw = {} if seed is None else {'test_seed': seed}
    if k.pick(True, False):
        kw['name'] = 'v'
    v = k.returns('constructed', make(k, kind, prm, **kw))
    first = None
    if k.pick(True, False):
        n0 = k.int('n0', 1)
        r = k.returns('sampled', k.meth(v, 'sample', n0))
        first = check_sample(k, r, kind, prm, n0, 'first')
    if k.pick(True, False):
        prm = rename_params(k, v, kind)
    n = k.pick(1, k.int('n', 1))
    r = k.returns('sampled', k.meth(v, 'sample', n) if not (isinstance(n, int) and k.pick(True, False)) else k.meth(v, 'sample'))
    d = check_sample(k, r, kind, prm, n, 'second')
    if first is not None:
        k.ensure('continues', d.rng is first.rng and d.call == first.call + 1, 'successive samples continue one sequence')
    s = d.rng.seed
    if seed is None:
        k.ensure('unseeded', s is None, 'no seed given: unpredictable values')
    else:
        k.ensure('seeded', False if s is None else zeq(s, seed), 'the sequence is the one of the given seed')


@contract('C16.independent', 'random_vars.RandomVar.__init__')
def independent(k):
    """two variables never share a sequence; the construction of a seeded one draws nothing from it"""
    kind = k.pick(*KINDS)
    prm = params(k, kind, 'p')
    seeded = k.pick(True, False)
    s = k.int('seed', 0) if seeded else None
    kw = {'test_seed': s} if seeded else {}
    v, w = make(k, kind, prm, **kw), make(k, kind, prm, **kw)
    if isinstance(v, Raised) or isinstance(w, Raised):
        raise Infeasible
    n = k.int('n', 1)
    a = check_sample(k, k.returns('sampled', k.meth(v, 'sample', n)), kind, prm, n, 'a')
    b = check_sample(k, k.returns('sampled', k.meth(w, 'sample', n)), kind, prm, n, 'b')
    k.ensure('own_sequence', a.rng is not b.rng, 'every variable has its own generator')
    if seeded:
        k.ensure('same_position', a.call == b.call, 'equal seeds: equal sequences')
        k.ensure('same_seed', z3.And(zeq(a.rng.seed, b.rng.seed), zeq(a.rng.seed, s)) if a.rng.seed is not None and b.rng.seed is not None else False,
                 'equal seeds: equal sequences')


@contract('C16.deterministic', 'random_vars.Deterministic.sample')
def deterministic(k):
    """every value is the declared one"""
    x = k.num('x')
    kw = {} if k.pick(True, False) else {'test_seed': k.int('seed', 0)}
    default = k.pick(True, False)
    v = k.returns('constructed', k.new('random_vars.Deterministic', **kw) if default else k.new('random_vars.Deterministic', x, **kw))
    want = 0 if default else x
    if k.pick(True, False):
        want = k.num('y')
        k.returns('settable', k.set(v, 'value', want))
    n = k.int('n', 1)
    r = k.returns('sampled', k.meth(v, 'sample', n))
    ok = isinstance(r, ArrRef) and len(r.shape) == 1
    k.ensure('count', dim_t(r.shape[0]) == n.t if ok else False, 'the requested number of values')
    if ok:
        k.ensure('value', zeq(r.at(k.index(r.shape)), want), 'always the declared value')


PNAMES = {('pymc', 'Normal'): ('mu', 'sigma'), ('pymc', 'Gamma'): ('alpha', 'beta'), ('pymc', 'Uniform'): ('lower', 'upper'),
          ('pyro', 'Normal'): ('loc', 'scale'), ('pyro', 'Gamma'): ('concentration', 'rate'), ('pyro', 'Uniform'): ('low', 'high')}


def leaf(node, fw):
    """-> (name, kind, {parameter: value}, observed) of an exported distribution, or None"""
    from pyvc.lib import Node

    if not isinstance(node, Node):
        return None
    if fw == 'pymc':
        if not node.kind.startswith('pymc.'):
            return None
        kind, kw, args = node.kind[5:], dict(node.kw), list(node.args)
        nm = kw.pop('name') if 'name' in kw else (args.pop(0) if args else None)
        obs = kw.pop('observed', None)
    else:
        if node.kind != 'pyro.sample' or set(node.kw) - {'name', 'fn', 'obs'}:
            return None
        vals = dict(zip(('name', 'fn'), node.args))
        vals.update(node.kw)
        d, nm, obs = vals.get('fn'), vals.get('name'), vals.get('obs')
        if not isinstance(d, Node) or not d.kind.startswith('pyro.distributions.'):
            return None
        kind, kw, args = d.kind.split('.')[-1], dict(d.kw), list(d.args)
    if (fw, kind) not in PNAMES:
        return None
    names = PNAMES[fw, kind]
    kw.update(zip(names, args))
    return nm, kind, kw, obs


def dist_goal(kind, lf, fw, prm):
    """the exported distribution has exactly these parameters"""
    if lf is None or lf[1] != kind or set(lf[2]) != set(PNAMES[fw, kind]):
        return z3.BoolVal(False)
    return z3.And(*[zeq(lf[2][p], x) for p, x in zip(PNAMES[fw, kind], prm)])


@contract('C16.inference', 'random_vars.RandomVar.get_cbi_form')
def inference(k):
    """the inference form has the variable's name, its data and the parameters it samples with"""
    fw = k.pick('pymc', 'pyro', 'other')
    kind = k.pick(*KINDS, 'Deterministic')
    if kind == 'Deterministic':
        if fw == 'other':
            raise Infeasible
        v = k.new('random_vars.Deterministic', k.num('x'), name='v')
        k.raises('constant_refused', k.meth(v, 'get_cbi_form', fw), 'NotImplementedError')
        return
    prm = params(k, kind, 'p')
    nm = sname('varname')
    v = k.returns('constructed', make(k, kind, prm, name=nm))
    if k.pick(True, False):
        prm = rename_params(k, v, kind)
    if fw == 'other':
        t = sname('fw')
        k.assume(z3.And(t.t != code('pymc'), t.t != code('pyro'), t.t != code('numpy')))
        k.raises('unknown_refused', k.meth(v, 'get_cbi_form', t), 'NotImplementedError')
        return
    obs = None
    if fw == 'pymc' and k.pick(True, False):
        obs = k.arr('data', (k.int('n', 1),))
        r = k.meth(v, 'get_cbi_form', fw, observed=obs)
    elif fw == 'pymc' and k.pick(True, False):
        r = k.meth(v, 'get_cbi_form')
    else:
        r = k.meth(v, 'get_cbi_form', fw) if k.pick(True, False) else k.meth(v, 'get_cbi_form', target_framework=fw)
    lf = leaf(k.returns('exported', r), fw)
    k.ensure(f'{fw}.distribution', dist_goal(kind, lf, fw, prm), f'exported {r!r}')
    if lf is not None:
        k.ensure(f'{fw}.name', False if lf[0] is None else zeq(lf[0], nm), 'carries the name')
        k.ensure(f'{fw}.data', lf[3] is obs, 'carries the data')


@contract('C16.centre', 'random_vars.Normal.set_centre')
def centre(k):
    """the centre of a normal variable is mu; setting it sets mu, combining it combines mu"""
    prm = params(k, 'Normal', 'p')
    v = k.returns('constructed', make(k, 'Normal', prm))
    k.ensure('get', zeq(k.returns('get.returns', k.meth(v, 'get_centre')), prm[0]))
    x = k.num('x')
    k.returns('set.returns', k.meth(v, 'set_centre', x))
    k.ensure('set', zeq(k.returns('get.returns', k.meth(v, 'get_centre')), x))
    n = k.int('n', 1)
    check_sample(k, k.returns('sampled', k.meth(v, 'sample', n)), 'Normal', (x, prm[1]), n, 'recentred')
