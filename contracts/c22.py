"""LatentVar.cbi_export: the inference form of a latent variable."""

import z3

from .c16 import KINDS, dist_goal, leaf, params
from .kit import *  # noqa: F403
from .kit import contract, zeq

ASSUMPTIONS = ['pymc, pyro and torch calls are recorded, not evaluated: a combined variable is the product/sum its operator node names; torch operators '
               'on plain numbers return the product/sum',
               'a base value of exactly 0 is treated by the code as no base value (documented in C22)']

LV = 'devices.LatentVar'


def rvar(k, tag, kinds):
    kind = k.pick(*kinds)
    prm = params(k, kind, tag)
    return k.new(f'random_vars.{kind}', *prm), kind, prm


def flat(node, fw):
    """leaves of a combined expression with the operators used"""
    from pyvc.lib import Node

    if isinstance(node, Node) and node.kind in ('mul', 'add') and len(node.args) == 2 and not node.kw:
        a, b = flat(node.args[0], fw), flat(node.args[1], fw)
        if a is None or b is None:
            return None
        return a[0] + b[0], a[1] | b[1] | {node.kind}
    lf = leaf(node, fw)
    return None if lf is None else ([lf], set())


def starts(name, prefix):
    if isinstance(name, str) and isinstance(prefix, str):
        return name.startswith(prefix)
    return False


def check_export(k, r, fw, layers, base, vt, name, tag):
    from pyvc.lib import Node

    if len(layers) > 1 and fw == 'pymc':
        ok = isinstance(r, Node) and r.kind == 'pymc.Deterministic'
        k.ensure(f'{tag}.combined', ok, 'a combined variable is one deterministic node')
        if not ok:
            raise Infeasible
        vals = dict(zip(('name', 'var'), r.args))
        vals.update(r.kw)
        k.ensure(f'{tag}.name', vals.get('name') == name, 'carries the name of the variable')
        r = vals.get('var')
    f = flat(r, fw)
    k.ensure(f'{tag}.layers', f is not None and len(f[0]) == len(layers), f'exported {r!r}')
    if f is None or len(f[0]) != len(layers):
        raise Infeasible
    leaves, opers = f
    k.ensure(f'{tag}.operator', opers <= {'mul' if vt == 'scaling' else 'add'}, 'layers combined by the variation operator')
    want = []
    for j, (kind, prm) in enumerate(layers):
        if j == 0 and base is not None:
            a = rterm(prm[0])
            z = rterm(base)
            prm = (Sym(z3.If(z == 0, a, a * z if vt == 'scaling' else a + z), T_FLOAT), prm[1])
        want.append((kind, prm))
    import itertools

    goals = [z3.And(*[dist_goal(kd, lf, fw, prm) for (kd, prm), lf in zip(want, p)]) for p in itertools.permutations(leaves)]
    k.ensure(f'{tag}.distributions', z3.Or(*goals), f'exported leaves {leaves}')
    names = [lf[0] for lf in leaves]
    k.ensure(f'{tag}.names', len(set(names)) == len(names) and all(starts(n, name) for n in names), f'distinct names from {name}: {names}')
    if fw == 'pymc' and len(names) > 1:
        k.ensure(f'{tag}.own_name', name not in names, f'layer names differ from the combined one: {names}')


@contract('C22.export', 'devices.LatentVar.cbi_export')
def export(k):
    """the export combines the layers' distributions with sampling parameters and leaves the variable as it was"""
    vt = k.pick('scaling', 'offset')
    fw = k.pick('pymc', 'pyro')
    has_base = k.pick(True, False)
    base = k.num('base') if has_base else None
    dev, dk, dp = rvar(k, 'd', ('Normal',) if has_base else tuple(KINDS))
    objs, layers, kw = {'dev_vrtn_mdl': dev}, [(dk, dp)], {}
    for a in ('chp', 'lot'):
        if k.pick(True, False):
            o, kd, p = rvar(k, a, ('Normal', 'Gamma') if a == 'chp' else ('Normal', 'Uniform'))
            objs[f'{a}_vrtn_mdl'] = o
            layers.append((kd, p))
    v = k.returns('constructed', k.new(LV, **objs, deter_val=base, vrtn_type=vt, name='vth'))
    twice = k.pick(False, True)
    for rep in ('first', 'again') if twice else ('first',):
        r = k.returns(f'{rep}.returns', k.meth(v, 'cbi_export', fw) if fw == 'pyro' or k.pick(True, False) else k.meth(v, 'cbi_export'))
        check_export(k, r, fw, layers, base, vt, 'vth', rep)
    for (kd, p), o in zip(layers, objs.values()):
        for a, x in zip(KINDS[kd][1:], p):
            k.ensure('parameters_kept', zeq(k.get(o, a), x), f'{kd}.{a} after the export')
    for a, o in objs.items():
        k.ensure('layers_kept', k.get(v, a) is o, a)
    k.ensure('base_kept', zeq(k.get(v, 'deter_val'), base))
    k.ensure('type_kept', zeq(k.get(v, 'vrtn_type'), vt))
    k.ensure('name_kept', zeq(k.get(v, 'name'), 'vth'))


@contract('C22.failing', 'devices.LatentVar.cbi_export')
def failing(k):
    """an export the framework refuses at any point leaves the variable as it was, and a later export is right"""
    vt = k.pick('scaling', 'offset')
    fw = k.pick('pymc', 'pyro')
    base = k.num('base') if k.pick(True, False) else None
    dev, dk, dp = rvar(k, 'd', ('Normal',))
    objs, layers = {'dev_vrtn_mdl': dev}, [(dk, dp)]
    for a in ('chp', 'lot'):
        if k.pick(True, False):
            o, kd, p = rvar(k, a, ('Normal',))
            objs[f'{a}_vrtn_mdl'] = o
            layers.append((kd, p))
    v = k.new(LV, **objs, deter_val=base, vrtn_type=vt, name='vth')
    if isinstance(v, Raised):
        raise Infeasible
    # every call of the framework an export makes, and one beyond
    k.ip.fw_fault = k.pick(*range(1, 2 + 2 * len(layers)))
    k.ip.fw_error = k.pick(ValueError, TypeError, AttributeError)
    k.meth(v, 'cbi_export', fw)
    k.ip.fw_fault = None
    for (kd, p), o in zip(layers, objs.values()):
        for a, x in zip(KINDS[kd][1:], p):
            k.ensure('parameters_kept', zeq(k.get(o, a), x), f'{kd}.{a} after the failed export')
    for a, o in objs.items():
        k.ensure('layers_kept', k.get(v, a) is o, a)
    k.ensure('base_kept', zeq(k.get(v, 'deter_val'), base))
    k.ensure('type_kept', zeq(k.get(v, 'vrtn_type'), vt))
    k.ensure('name_kept', zeq(k.get(v, 'name'), 'vth'))
    r = k.returns('again.returns', k.meth(v, 'cbi_export', fw))
    check_export(k, r, fw, layers, base, vt, 'vth', 'again')


@contract('C22.changed', 'devices.LatentVar.cbi_export')
def changed(k):
    """the export follows changes of layers, type and base"""
    vt = k.pick('scaling', 'offset')
    fw = k.pick('pymc', 'pyro')
    dev, dk, dp = rvar(k, 'd', ('Normal',))
    L = {'dev': (dev, dk, dp)}
    for a in ('chp', 'lot'):
        if k.pick(True, False):
            L[a] = rvar(k, a, ('Normal',))
    base = k.num('base') if k.pick(True, False) else None
    v = k.new(LV, **{f'{a}_vrtn_mdl': o[0] for a, o in L.items()}, deter_val=base, vrtn_type=vt, name='vth')
    if isinstance(v, Raised):
        raise Infeasible
    what = k.pick('dev', 'chp', 'lot', 'type', 'base', 'param')
    if what == 'type':
        vt = k.pick('scaling', 'offset')
        k.set(v, 'vrtn_type', vt)
    elif what == 'base':
        base = k.num('base2')
        k.set(v, 'deter_val', base)
    elif what == 'param':
        x = k.num('mu2')
        k.set(dev, 'mu', x)
        L['dev'] = (dev, dk, (x, dp[1]))
    else:
        if what != 'dev' and k.pick(True, False):
            L.pop(what, None)
            k.set(v, f'{what}_vrtn_mdl', None)
        else:
            L[what] = rvar(k, 'n', ('Normal',))
            k.set(v, f'{what}_vrtn_mdl', L[what][0])
    r = k.returns('returns', k.meth(v, 'cbi_export', fw))
    check_export(k, r, fw, [L[a][1:] for a in ('dev', 'chp', 'lot') if a in L], base, vt, 'vth', 'export')


@contract('C22.refusals', 'devices.LatentVar.cbi_export')
def refusals(k):
    """no device distribution: refused; unknown framework: refused"""
    case = k.pick('deterministic', 'removed', 'framework')
    if case == 'framework':
        t = sname('fw')
        k.assume(z3.And(t.t != code('pymc'), t.t != code('pyro')))
        v = k.new(LV, rvar(k, 'd', ('Normal',))[0], chp_vrtn_mdl=rvar(k, 'c', ('Normal',))[0] if k.pick(1, 0) else None, name='vth')
        k.raises('framework', k.meth(v, 'cbi_export', t), 'NotImplementedError')
        return
    fw = k.pick('pymc', 'pyro')
    kw = {f'{a}_vrtn_mdl': rvar(k, a, ('Normal',))[0] for a in ('chp', 'lot') if k.pick(True, False)}
    if case == 'removed':
        v = k.new(LV, rvar(k, 'd', ('Normal',))[0], deter_val=k.num('base'), name='vth', **kw)
        if isinstance(v, Raised) or isinstance(k.set(v, 'dev_vrtn_mdl', None), Raised):
            raise Infeasible
    else:
        v = k.new(LV, deter_val=k.num('base'), name='vth', **kw)
    if isinstance(v, Raised):
        raise Infeasible
    k.raises(case, k.meth(v, 'cbi_export', fw), 'UserConfigError')
