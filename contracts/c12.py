"""LatentVar: layers of variation."""

import z3

from .kit import *  # noqa: F403
from .kit import contract, one_draw, same_state, stub_samples, zeq

ASSUMPTIONS = ['a sample of a random variable is one fresh value per position (contract of RandomVar.sample, property C16)',
               'reshaping a sample only relabels its independent values']

LV = 'devices.LatentVar'
LAYERS = ('dev_vrtn_mdl', 'chp_vrtn_mdl', 'lot_vrtn_mdl')


def config(k, label='cfg', share=False):
    """an arbitrary legal configuration"""
    c = {a: (k.rv(a, label=f'{label}.{a}') if k.pick(True, False) else None) for a in LAYERS}
    mine = [a for a in LAYERS if c[a] is not None]
    if share and len(mine) > 1 and k.pick(False, True):
        # one object may serve several layers
        c.update({a: c[mine[0]] for a in mine})
    c['deter_val'] = k.num('deter') if c['dev_vrtn_mdl'] is None or k.pick(True, False) else None
    c['vrtn_type'] = k.pick('scaling', 'offset')
    c['name'] = k.pick('var', None)
    return c


def build(k, c):
    return k.new(LV, **c)


def check_gen(k, var, c, tag):
    """gen_latent_vals of a variable in configuration c combines base, device, chip and lot draws"""
    L, C, D = k.int('lots', 1), k.int('chps', 1), k.int('devs', 1)
    r = k.returns(f'{tag}.returns', k.meth(var, 'gen_latent_vals', D, C, L))
    ok = isinstance(r, ArrRef) and len(r.shape) == 3
    k.ensure(f'{tag}.shape', z3.And(*[dim_t(a) == b.t for a, b in zip(r.shape, (L, C, D))]) if ok else False, 'lots x chips x devices')
    if not ok:
        return
    l, ch, d = k.index(r.shape)
    t = rterm(r.at((l, ch, d)))
    parts = [] if c['deter_val'] is None else [rterm(c['deter_val'])]
    for a, idx in zip(LAYERS, ((l, ch, d), (l, ch), (l,))):
        if c[a] is not None:
            parts.append(one_draw(k, f'{tag}.one_draw_per_{a[:3]}', t, c[a], idx, sum(c[b] is c[a] for b in LAYERS)))
    want = z3.RealVal(1 if c['vrtn_type'] == 'scaling' else 0)
    for p in parts:
        want = want * p if c['vrtn_type'] == 'scaling' else want + p
    k.ensure(f'{tag}.combination', t == want, 'value == base combined with the draws of its layers')


@contract('C12.construct', 'devices.LatentVar.__init__')
def construct(k):
    """a newly built variable samples base x layers; neither base nor device distribution, or a bad type, is refused"""
    stub_samples(k)
    case = k.pick('legal', 'nothing', 'badtype')
    if case == 'legal':
        c = config(k, share=True)
        v = k.returns('accepted', build(k, c))
        check_gen(k, v, c, 'gen')
    elif case == 'nothing':
        c = {'chp_vrtn_mdl': k.rv('c') if k.pick(1, 0) else None, 'lot_vrtn_mdl': k.rv('l') if k.pick(1, 0) else None,
             'vrtn_type': k.pick('scaling', 'offset')}
        k.raises('refused', build(k, c), 'UserConfigError')
    else:
        bad = sname('bad')
        k.assume(z3.And(bad.t != code('scaling'), bad.t != code('offset')))
        k.raises('badtype', k.new(LV, dev_vrtn_mdl=k.rv('d'), vrtn_type=bad), 'InvalidTypeError')


def change(k, v, c):
    """one arbitrary change of a public attribute"""
    a = k.pick(*LAYERS, 'deter_val', 'vrtn_type', 'name')
    if a in LAYERS:
        how = k.pick('new', 'none', 'same')
        if how == 'same':
            val = next((c[b] for b in LAYERS if b != a and c[b] is not None), None)
            if val is None:
                raise Infeasible
        else:
            val = k.rv('new', label='new') if how == 'new' else None
    elif a == 'deter_val':
        val = k.num('newdeter') if k.pick(True, False) else None
    elif a == 'name':
        val = k.pick('renamed', None)
    else:
        val = k.pick('scaling', 'offset')
    r = k.set(v, a, val)
    return dict(c, **{a: val}), r


def canon(k, c):
    """the state of a variable of configuration c: newly built, or - neither base nor device distribution - left without its base"""
    if c['dev_vrtn_mdl'] is not None or c['deter_val'] is not None:
        v = build(k, c)
    else:
        v = build(k, dict(c, deter_val=k.num('lost')))
        if not isinstance(v, Raised) and isinstance(k.set(v, 'deter_val', None), Raised):
            raise Infeasible  # C12.change
    if isinstance(v, Raised):
        raise Infeasible  # C12.construct
    return v


def any_config(k):
    """an arbitrary configuration, also one reached only by taking base and device distribution away"""
    c = config(k)
    if c['dev_vrtn_mdl'] is None and k.pick(False, True):
        c['deter_val'] = None
    return c


@contract('C12.change', 'devices.LatentVar.__setattr__')
def change_then_sample(k):
    """after one change the variable samples according to its new configuration"""
    stub_samples(k)
    c = any_config(k)
    v = canon(k, c)
    c2, r = change(k, v, c)
    k.returns('accepted', r)
    check_gen(k, v, c2, 'gen')


@contract('C12.history', 'devices.LatentVar.__setattr__')
def history(k):
    """induction over histories: a change leads to the state a newly built variable of that configuration has"""
    stub_samples(k)
    c = any_config(k)
    v = canon(k, c)
    c2, r = change(k, v, c)
    if isinstance(r, Raised):
        raise Infeasible
    w = canon(k, c2)
    k.ensure_soft('canonical_state', same_state(v, w, ignore=('name',)))


@contract('C12.badtype', 'devices.LatentVar.__setattr__')
def badtype(k):
    """an invalid type is refused and leaves the variable as it was"""
    stub_samples(k)
    c = config(k)
    v = build(k, c)
    if isinstance(v, Raised):
        raise Infeasible
    bad = sname('bad')
    k.assume(z3.And(bad.t != code('scaling'), bad.t != code('offset')))
    k.raises('refused', k.set(v, 'vrtn_type', bad), 'InvalidTypeError')
    check_gen(k, v, c, 'gen')
