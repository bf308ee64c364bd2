"""Measurement tables: rows, labels, stamps."""

import z3

from pyvc.lib import radix

from .kit import *  # noqa: F403
from .kit import contract, zeq
from .measure import MeasStep
from .stress import *  # noqa: F403

ASSUMPTIONS = [
    'numpy reshape, tile, repeat (C order) and the pandas constructors arrange elements as documented',
    'a value array has one to three dimensions of at least one element each',
]


def position(k, L, C, D, tag=''):
    """any row number of an L x C x D table with its lot, chip and device (Euclidean division; exactly one decomposition exists)"""
    l, c, d = (k.int(f'{n}{tag}', 0) for n in 'lcd')
    k.assume(z3.And(l.t < L, c.t < C, d.t < D))
    r = k.int(f'row{tag}', 0)
    q, low = l.t * C + c.t, c.t * D + d.t
    for n in (r.t, z3.simplify(q * D + d.t), z3.simplify(l.t * (C * D) + low)):
        radix(n, D, q, d.t)
        radix(n, C * D, l.t, low)
        radix(n, D * C, l.t, low)
    radix(q, C, l.t, c.t)
    radix(low, D, c.t, d.t)
    k.assume(r.t == q * D + d.t)
    return r, (l, c, d)


def the_block(k, name, fr):
    ok = isinstance(fr, FrameRef) and len(fr.st) == 1 and getattr(fr.st[0], 'cols', None) is not None
    if not ok:
        raise Unsupported(f'table {fr!r}')
    return fr.st[0]


def stamped(k, b, row, name, tm, step):
    for col, want in (('param', name), ('step #', step), ('time', tm)):
        k.ensure(f'column.{col.split()[0]}', col in b.cols and zeq(b.cols[col](row.t), want), f'column {col!r} of every row')


@contract('C06.parameter', 'reports.SimReport.format_measurements')
def parameter(k):
    """one row per value; the value of a row is the one of the lot, chip and device in its labels; no two rows have the same labels"""
    # any size; and one definite size on which no symbolic division is needed to refute
    L, C, D = (k.int(n, 1).t for n in 'LCD') if k.pick(True, False) else (2, 3, 4)
    form = k.pick(3, 2, 1)
    sh = (L, C, D)[3 - form:]
    if form < 3:
        L = 1
    if form < 2:
        C = 1
    V = k.arr('values', sh)
    name, tm, step = sname('prm'), TD(k.real('time')), k.int('step')
    cls = k.cls('reports.SimReport')
    kw = {} if k.pick(True, False) else {'prm_type': 'parameter'}
    fr = k.returns('returns', k.meth(cls, 'format_measurements', V, name, tm, step, **kw))
    b = the_block(k, 'table', fr)
    k.ensure('rows', dim_t(b.n) == dim_t(L) * dim_t(C) * dim_t(D), 'lots x chips x devices rows')
    L, C, D = dim_t(L), dim_t(C), dim_t(D)
    r, pos = position(k, L, C, D)
    labels = []
    for col, top in (('lot #', L), ('chip #', C), ('device #', D)):
        v = b.cols[col](r.t) if col in b.cols else None
        ok = v is not None and is_num(v)
        k.ensure('label.number', ok and z3.And(rterm(v) >= 0, rterm(v) < z3.ToReal(dim_t(top))), f'{col}: numbered from zero, got {v!r}')
        if not ok:
            raise Infeasible
        labels.append(v)
    v = b.cols['measured'](r.t) if 'measured' in b.cols else None
    idx = [z3.ToInt(x.t) if z3.is_real(x.t) else x.t for x in (Sym(term(y), T_INT) for y in labels)][3 - form:]
    k.ensure('value', is_num(v) and rterm(v) == rterm(V.at(tuple(idx))), f'value of the labelled device, got {v!r}')
    r2, pos2 = position(k, L, C, D, '2')
    same = z3.And(*[rterm(a) == rterm(b.cols[col](r2.t)) for a, col in zip(labels, ('lot #', 'chip #', 'device #'))])
    k.ensure('label.distinct', z3.Implies(same, r.t == r2.t), 'no two rows for one device')
    stamped(k, b, r, name, tm, step)


@contract('C06.condition', 'reports.SimReport.format_measurements')
def condition(k):
    """one row per sensor value"""
    n = k.int('N', 1)
    V = k.arr('values', (1, n.t, 1)) if k.pick(True, False) else k.arr('values', (n.t,))
    name, tm, step = sname('cond'), TD(k.real('time')), k.int('step')
    fr = k.returns('returns', k.meth(k.cls('reports.SimReport'), 'format_measurements', V, name, tm, step, 'condition'))
    b = the_block(k, 'table', fr)
    k.ensure('rows', dim_t(b.n) == n.t, 'one row per value')
    r = k.int('row', 0)
    k.assume(r.t < n.t)
    radix(r.t, n.t, z3.IntVal(0), r.t)
    v = b.cols['measured'](r.t) if 'measured' in b.cols else None
    at = (z3.IntVal(0), r.t, z3.IntVal(0)) if len(V.shape) == 3 else (r.t,)
    k.ensure('value', is_num(v) and rterm(v) == rterm(V.at(at)), f'value of the sensor, got {v!r}')
    stamped(k, b, r, name, tm, step)


def the_rows(k, s, p):
    blocks = s.rows(p)
    k.ensure('rows.once', len(blocks) == 1 and blocks[0].cols is not None, f'{len(blocks)} groups of rows')
    if len(blocks) != 1 or blocks[0].cols is None:
        raise Infeasible
    return blocks[0]


@contract('C06.step', 'sim._sim_meas_step')
def step(k):
    """every requested parameter gets lots x chips x requested labelled rows, every requested condition the requested number of rows, all
    stamped with step and time, after the rows of earlier steps; nothing else gets rows"""
    w = World(k, ('array',), circ=True)
    s = MeasStep(k, w, defined=True)
    k.returns('returns', s.result)
    p = sname('prm')
    if not s.coll.member(p):
        k.ensure('nothing_else', not s.rows(p), 'no rows for what is not requested')
        return
    b = the_rows(k, s, p)
    row = k.int('row', 0)
    k.assume(row.t < dim_t(b.n))
    stamped(k, b, row, p, TD(s.elapsed), s.step_id)
    m = rec_apps(rterm(b.cols['measured'](row.t)), 'measure')
    if len(m) != 1:
        raise Infeasible  # C07
    c = m[0][0]
    k.ensure('own_row', z3.And(*[dim_t(x) == row.t for x in m[0][1]]), 'reading of the value in the same row')
    f = rec_apps(rterm(c.then(lambda: c.args['true_vals'].st[1](row.t))), 'rows')
    if len(f) != 1:
        raise Infeasible
    k.ensure('own_value', z3.And(*[dim_t(x) == row.t for x in f[0][1]]), 'reading of the value in the same row')
    f = f[0][0]
    cnt = s.requested(p).t
    if w.coll.member(p):
        k.ensure('rows.parameter', dim_t(b.n) == w.L.t * w.C.t * cnt, 'lots x chips x requested devices')
        k.ensure('kind.parameter', zeq(f.args['prm_type'], 'parameter'), 'labelled rows')
        sh = f.args['measured_vals'].shape
        k.ensure('values.shape', z3.And(*[dim_t(x) == y for x, y in zip(sh, (w.L.t, w.C.t, cnt))]), 'values per lot, chip and device')
        for col in ('lot #', 'chip #', 'device #'):
            v = b.cols[col](row.t) if col in b.cols else None
            a = rec_apps(rterm(v), 'label') if is_num(v) else []
            ok = len(a) == 1 and z3.eq(a[0][2], rterm(v)) and a[0][0].args['column'] == col and a[0][0].args['of'] is f
            k.ensure('labels.kept', ok and z3.And(*[dim_t(x) == row.t for x in a[0][1]]), f'label {col!r} of the row as assigned to its value: {v!r}')
    else:
        k.ensure('rows.condition', dim_t(b.n) == cnt, 'the requested number of rows')
        g = rec_apps(rterm(f.args['measured_vals'].at(k.index(f.args['measured_vals'].shape))), 'sensors')
        k.ensure('values.sensors', len(g) == 1 and zeq(g[0][0].args['cond'], p), 'readings of the condition')


@contract('C06.append', 'reports.SimReport.add_measurements')
def append(k):
    """rows are added after the earlier ones, none lost or changed"""
    w = World(k, ('array',))
    rep = w.report()
    k.set(rep, 'measurements', FrameRef((('base', 'earlier'),)))
    k.returns('returns', k.meth(rep, 'add_measurements', FrameRef((('base', 'new'),))))
    fr = k.get(rep, 'measurements')
    ok = isinstance(fr, FrameRef)
    k.ensure('appended', ok and fr.st == (('base', 'earlier'), ('base', 'new')), f'{fr.st if ok else fr!r}')
