"""EnvVrtnMdl: layers of variation of an environmental condition."""

import z3

from .kit import *  # noqa: F403
from .kit import contract, one_draw, same_state, stub_samples

ASSUMPTIONS = ['a sample of a random variable is one fresh value per position (contract of RandomVar.sample, property C16)',
               'reshaping a sample only relabels its independent values']

EV = 'phys_envs.EnvVrtnMdl'
LAYERS = ('dev_vrtn_mdl', 'chp_vrtn_mdl', 'batch_vrtn_mdl')


def config(k, label='cfg', share=False):
    c = {a: (k.rv(a, label=f'{label}.{a}') if k.pick(True, False) else None) for a in LAYERS}
    mine = [a for a in LAYERS if c[a] is not None]
    if share and len(mine) > 1 and k.pick(False, True):
        # one object may serve several layers
        c.update({a: c[mine[0]] for a in mine})
    c['vrtn_type'] = k.pick('scaling', 'offset')
    return c


def build(k, c):
    return k.new(EV, **c)


def combine(c, base, parts):
    want = base
    for p in parts:
        want = want * p if c['vrtn_type'] == 'scaling' else want + p
    return want


def check_gen(k, var, c, tag):
    L, C, D = k.int('lots', 1), k.int('chps', 1), k.int('devs', 1)
    base = k.num('target')
    r = k.returns(f'{tag}.returns', k.meth(var, 'gen_env_vrtns', base, D, C, L))
    ok = isinstance(r, ArrRef) and len(r.shape) == 3
    k.ensure(f'{tag}.shape', z3.And(*[dim_t(a) == b.t for a, b in zip(r.shape, (L, C, D))]) if ok else False, 'lots x chips x devices')
    if not ok:
        return
    l, ch, d = k.index(r.shape)
    t = rterm(r.at((l, ch, d)))
    parts = []
    for a, idx in zip(LAYERS, ((l, ch, d), (l, ch), ())):
        if c[a] is not None:
            parts.append(one_draw(k, f'{tag}.one_draw_per_{a.split("_")[0]}', t, c[a], idx, sum(c[b] is c[a] for b in LAYERS)))
    k.ensure(f'{tag}.combination', t == combine(c, rterm(base), parts), 'value == target combined with the draws of its layers')


@contract('C13.construct', 'phys_envs.EnvVrtnMdl.__init__')
def construct(k):
    """a new variation model combines exactly the layers it was given; an unknown type is refused"""
    stub_samples(k)
    if k.pick('legal', 'badtype') == 'legal':
        c = config(k, share=True)
        v = k.returns('accepted', build(k, c))
        check_gen(k, v, c, 'gen')
    else:
        bad = sname('bad')
        k.assume(z3.And(bad.t != code('scaling'), bad.t != code('offset')))
        k.raises('badtype', k.new(EV, vrtn_type=bad), 'InvalidTypeError')


@contract('C13.stages', 'phys_envs.EnvVrtnMdl.gen_batch_vrtn')
def stages(k):
    """the three stages used by the test environment, each on its own"""
    stub_samples(k)
    c = config(k)
    v = build(k, c)
    if isinstance(v, Raised):
        raise Infeasible
    L, C, D = k.int('lots', 1), k.int('chps', 1), k.int('devs', 1)
    case = k.pick('batch', 'chip', 'dev')
    if case == 'batch':
        base = k.num('target')
        r = k.returns('batch.returns', k.meth(v, 'gen_batch_vrtn', base))
        ok = is_num(r) or (isinstance(r, ArrRef) and r.shape in ((1,), (1, 1), (1, 1, 1), ()))
        k.ensure('batch.single', ok, 'one value for the whole test')
        if ok:
            t = rterm(r if is_num(r) else r.at(tuple(0 for _ in r.shape)))
            parts = [one_draw(k, 'batch.one_draw', t, c['batch_vrtn_mdl'], ())] if c['batch_vrtn_mdl'] is not None else []
            k.ensure('batch.combination', t == combine(c, rterm(base), parts))
    elif case == 'chip':
        base = k.arr('batch', (1,))
        r = k.returns('chip.returns', k.meth(v, 'gen_chp_vrtns', base, C, L))
        ok = isinstance(r, ArrRef) and len(r.shape) == 2
        k.ensure('chip.shape', z3.And(dim_t(r.shape[0]) == L.t, dim_t(r.shape[1]) == C.t) if ok else False)
        if ok:
            l, ch = k.index(r.shape)
            t = rterm(r.at((l, ch)))
            parts = [one_draw(k, 'chip.one_draw', t, c['chp_vrtn_mdl'], (l, ch))] if c['chp_vrtn_mdl'] is not None else []
            k.ensure('chip.combination', t == combine(c, rterm(base.at((0,))), parts))
    else:
        base = k.arr('chip', (L, C))
        r = k.returns('dev.returns', k.meth(v, 'gen_dev_vrtns', base, D))
        ok = isinstance(r, ArrRef) and len(r.shape) == 3
        k.ensure('dev.shape', z3.And(*[dim_t(a) == b.t for a, b in zip(r.shape, (L, C, D))]) if ok else False)
        if ok:
            l, ch, d = k.index(r.shape)
            t = rterm(r.at((l, ch, d)))
            parts = [one_draw(k, 'dev.one_draw', t, c['dev_vrtn_mdl'], (l, ch, d))] if c['dev_vrtn_mdl'] is not None else []
            k.ensure('dev.combination', t == combine(c, rterm(base.at((l, ch))), parts))


def change(k, v, c):
    a = k.pick(*LAYERS, 'vrtn_type', 'name')
    if a in LAYERS:
        how = k.pick('new', 'none', 'same')
        if how == 'same':
            val = next((c[b] for b in LAYERS if b != a and c[b] is not None), None)
            if val is None:
                raise Infeasible
        else:
            val = k.rv('new', label='new') if how == 'new' else None
    elif a == 'name':
        val = k.pick('renamed', None)
    else:
        val = k.pick('scaling', 'offset')
    r = k.set(v, a, val)
    return (c if a == 'name' else dict(c, **{a: val})), r


@contract('C13.change', 'phys_envs.EnvVrtnMdl.__setattr__')
def change_then_sample(k):
    """after any change of a layer or of the type the values are those of a model built that way"""
    stub_samples(k)
    c = config(k)
    v = build(k, c)
    if isinstance(v, Raised):
        raise Infeasible
    c2, r = change(k, v, c)
    k.returns('accepted', r)
    check_gen(k, v, c2, 'gen')


@contract('C13.history', 'phys_envs.EnvVrtnMdl.__setattr__')
def history(k):
    """induction over histories: a change leads to the state a newly built model of that configuration has"""
    stub_samples(k)
    c = config(k)
    v = build(k, c)
    if isinstance(v, Raised):
        raise Infeasible
    c2, r = change(k, v, c)
    if isinstance(r, Raised):
        raise Infeasible
    w = build(k, c2)
    if isinstance(w, Raised):
        raise Infeasible
    k.ensure_soft('canonical_state', same_state(v, w, ignore=('name',)))


@contract('C13.badtype', 'phys_envs.EnvVrtnMdl.__setattr__')
def badtype(k):
    """an unknown variation type is refused and the model stays as it was"""
    stub_samples(k)
    c = config(k)
    v = build(k, c)
    if isinstance(v, Raised):
        raise Infeasible
    bad = sname('bad')
    k.assume(z3.And(bad.t != code('scaling'), bad.t != code('offset')))
    k.raises('refused', k.set(v, 'vrtn_type', bad), 'InvalidTypeError')
    check_gen(k, v, c, 'gen')
