"""Exporting and loading reports."""

import z3

from pyvc.lib import Block, Cols, file_find
from pyvc.values import unchanged

from .c01 import ALIAS, bad_unit, factor
from .kit import *  # noqa: F403
from .kit import contract, zeq

ASSUMPTIONS = [
    'assumed contract of a callee (bounded check c19): SimReport._frame_to_json gives a text from which SimReport._frame_from_json restores '
    'every column and every value that is a number, a string or missing; a duration cannot be written',
    'datetime.timedelta and pandas.Timedelta are treated as exact real numbers of seconds',
    'library contracts: a JSON file holds the value written to it; DataFrame.copy copies; Series.apply calls the function for every value '
    'and passes further keywords to it; a column assignment replaces that column only',
    'a file can be written once its folder has been created with its parents',
]

MEAS = ('param', 'step #', 'device #', 'chip #', 'lot #', 'measured')
SUMM = ('step name', 'step type', 'step number')
TIMES = {'measurements': ('time',), 'test_summary': ('duration', 'start time', 'end time')}
KNOWN = {'measurements': (*MEAS, 'time'), 'test_summary': (*SUMM, 'duration', 'start time', 'end time')}


class Text:
    """the text of a table"""

    pyvc_json = True

    def __init__(self, st):
        self.st = st


def stub_tables(k):
    def to_json(ip, f, args, kwargs, kwmap):
        (frame,) = args
        st = frame.st
        if not st:
            return Text(st)
        if len(st) != 1 or not isinstance(st[0], Block) or st[0].cols is None:
            raise Unsupported('table')
        i = z3.Int(f'row!{k.run.fresh_id()}')
        k.assume(z3.And(i >= 0, i < dim_t(st[0].n)))
        for c, fn in st[0].cols.items():
            if isinstance(fn(i), TD):
                raise PyExc(TypeError)
        return Text(st)

    def from_json(ip, f, args, kwargs, kwmap):
        (t,) = args
        if not isinstance(t, Text):
            raise Unsupported('text of a table')
        return FrameRef(t.st)

    k.ip.stubs['reports.SimReport._frame_to_json'] = to_json
    k.ip.stubs['reports.SimReport._frame_from_json'] = from_json


class Table:
    """any number of rows; known columns and any number of others"""

    def __init__(self, k, name):
        self.k, self.name = k, name
        self.n = k.int('rows', 1).t
        self.fns, self.known = {}, KNOWN[name]
        cols = Cols({c: self.column(c) for c in self.known})
        f = z3.Function(f'cell!{k.run.fresh_id()}', z3.IntSort(), z3.IntSort(), z3.RealSort())
        self.extra = k.names('columns') if name == 'test_summary' else None

        def rest(c):
            if self.extra is None or not self.extra.member(c):
                return ABSENT
            return lambda i: Sym(f(term(c), dim_t(i)), T_FLOAT)

        cols.rest = rest
        self.cols = cols
        # a report without measurements or without steps has an empty table without columns
        self.empty = k.pick(False, True)
        self.frame = FrameRef(() if self.empty else (Block(self.n, cols, None),))

    def column(self, c):
        f = z3.Function(f'{c}!{self.k.run.fresh_id()}', z3.IntSort(), z3.RealSort())
        if c in TIMES[self.name]:
            return lambda i: TD(Sym(f(dim_t(i)), T_FLOAT), True)
        return lambda i: Sym(f(dim_t(i)), T_FLOAT)

    def row(self):
        i = z3.Int(f'row!{self.k.run.fresh_id()}')
        self.k.assume(z3.And(i >= 0, i < self.n))
        return i

    def check(self, name, frame, time=None, now=None):
        """the same table; times checked with `time` (as they are when None); `now`: the table as it has become"""
        k = self.k
        ok = isinstance(frame, FrameRef)
        st = frame.st if ok else ()
        if self.empty:
            k.ensure(f'{name}.table', ok and st == (), f'{frame!r}')
            return
        if ok and (len(st) != 1 or not isinstance(st[0], Block) or st[0].cols is None):
            raise Unsupported('table in another form')
        k.ensure(f'{name}.table', ok, f'{frame!r}')
        if not ok:
            raise Infeasible
        b = st[0]
        k.ensure(f'{name}.rows', dim_t(b.n) == self.n, 'number of rows')
        i = self.row()
        for c in self.known:
            ok = c in b.cols
            k.ensure(f'{name}.{c}', ok, f'column {c}')
            if not ok:
                raise Infeasible
            got, want = b.cols[c](i), self.cols[c](i)
            if now is not None:
                want = now[c](i)
            if c in TIMES[self.name] and time is not None:
                k.ensure(f'{name}.{c}', time(got, want), f'{got!r}')
            else:
                k.ensure(f'{name}.{c}', isinstance(got, TD) == isinstance(want, TD) and zeq(got, want), f'{got!r}')
        k.ensure(f'{name}.no_more', set(b.cols) == set(self.known), f'columns {sorted(map(str, b.cols))}')
        x = sname('column')
        for c in self.known:
            k.assume(x.t != code(c))
        rest = getattr(b.cols, 'rest', None)
        got, want = rest(x) if rest else ABSENT, self.cols.rest(x)
        k.ensure(f'{name}.others', got is want if got is ABSENT or want is ABSENT else zeq(got(i), want(i)), 'the other columns')


class Report:
    def __init__(self, k, loaded=None):
        self.k = k
        stub_tables(k)
        self.name, self.text = sname('test_name'), sname('description')
        k.assume(z3.And(self.name.t != code(''), self.text.t != code('')))
        self.rep = k.returns('report', k.new('reports.SimReport', name=self.name, description=self.text))
        self.tables = {n: Table(k, n) for n in TIMES}
        # a test may go without a name or a description
        odd = k.pick(None, 'empty', 'none') if loaded is None else None
        if odd:
            self.name = self.text = '' if odd == 'empty' else None
            k.set(self.rep, 'test_name', self.name)
            k.set(self.rep, 'test_description', self.text)
        for n, t in self.tables.items():
            k.set(self.rep, n, t.frame)
        self.now = {}
        if loaded is not None:
            how, unit = loaded
            if how == 'loaded':
                k.set(self.rep, 'time_unit', unit)
            else:
                # the times of its measurements were converted to numbers before
                if isinstance(k.meth(self.rep, 'convert_report_time', unit), Raised):
                    raise Infeasible  # C23
                t = self.tables['measurements']
                f = k.get(self.rep, 'measurements')
                if not t.empty and isinstance(f, FrameRef) and len(f.st) == 1 and isinstance(f.st[0], Block) and f.st[0].cols is not None:
                    self.now['measurements'] = f.st[0].cols
        self.attrs = dict(self.rep.st)

    def path(self):
        p = sname('file')
        self.k.assume(p.t != code(''))
        return p

    def unchanged(self):
        k = self.k
        for n, t in self.tables.items():
            got = k.get(self.rep, n)
            t.check(f'kept.{n}', got, now=self.now.get(n))
        for a in sorted({*self.attrs, *self.rep.st}, key=str):
            if a not in self.tables and a not in ('test_name', 'test_description') and isinstance(a, str) and not a.startswith('_'):
                k.ensure('kept.attributes', unchanged(self.attrs.get(a, ABSENT), self.rep.st.get(a, ABSENT)), f'{a} of the report')
        k.ensure('kept.name', z3.And(zeq(k.get(self.rep, 'test_name'), self.name), zeq(k.get(self.rep, 'test_description'), self.text)))


def choose_unit(k):
    """requested unit, what happened to the report before (loaded or its times converted, in which unit), the unit that must result (None: any)"""
    full = sorted(set(ALIAS.values()))
    if k.pick('given', 'default') == 'given':
        u = k.pick(*[a for a in ALIAS if a is not None])
        return {'time_unit': u}, k.pick(None, ('loaded', 'days'), ('converted', 'milliseconds')), ALIAS[u]
    loaded = k.pick(None, *[('loaded', u) for u in full], *[('converted', u) for u in ALIAS])
    return {}, loaded, None


@contract('C19.export', 'reports.SimReport.export_to_json')
def export(k):
    """names, the unit, every time in that unit, everything else as it is; the report does not change; the file holds the same"""
    kw, loaded, unit = choose_unit(k)
    r = Report(k, loaded)
    to_file = k.pick(False, True)
    p = r.path()
    if to_file:
        kw['file'] = p
    out = k.returns('returns', k.meth(r.rep, 'export_to_json', **kw))
    ok = isinstance(out, MapRef)
    k.ensure('dictionary', ok, f'{out!r}')
    if not ok:
        raise Infeasible
    val = lambda c: map_get(out, c)  # noqa: E731
    k.ensure('name', val('Test Name') is not ABSENT and zeq(val('Test Name'), r.name), 'test name')
    k.ensure('description', val('Description') is not ABSENT and zeq(val('Description'), r.text), 'description')
    u = val('Time Units')
    ok = isinstance(u, str) and u.lower() in ALIAS
    k.ensure('unit', ok and ALIAS[u.lower()] == (unit or ALIAS[u.lower()]), f'unit {u!r}')
    if not ok:
        raise Infeasible
    f = factor(u.lower())

    def time(got, want):
        return rterm(got) * f == rterm(want.s) if is_num(got) else False

    for key, n in (('Measurements', 'measurements'), ('Test Summary', 'test_summary')):
        t = val(key)
        if not isinstance(t, Text):
            raise Unsupported('tables are written in another form')
        r.tables[n].check(n, FrameRef(t.st), time)
    r.unchanged()
    c = file_find(p)
    if not to_file:
        k.ensure('no_file', not cur().extra.get('files'), 'no file written')
        return
    ok = isinstance(c, MapRef)
    k.ensure('file', ok, 'the file is written')
    if not ok:
        raise Infeasible
    ks = set(concrete_keys(out))
    same = set(concrete_keys(c)) == ks
    k.ensure('file_keys', same, 'the file holds the dictionary')
    if not same:
        raise Infeasible
    for x in ks:
        a, b = map_get(c, x), map_get(out, x)
        k.ensure('file_content', a is b or not isinstance(a, Text) and not isinstance(b, Text) and zeq(a, b), f'{x}')
    opened = cur().extra.get('opened', ())
    made = opened[-1][1] if opened else ()
    from pyvc.lib import DIRNAME
    k.ensure('folders', z3.Or(False, *[z3.And(term(d) == DIRNAME(p.t), z3.BoolVal(bool(par and ok))) for d, par, ok in made if not isinstance(d, str)]),
             'missing folders are created before')


@contract('C19.round_trip', 'reports.SimReport.__init__')
def round_trip(k):
    """loading an exported report restores names, all values and all times"""
    kw, loaded, unit = choose_unit(k)
    r = Report(k, loaded)
    p = r.path()
    res = k.meth(r.rep, 'export_to_json', p, **kw)
    if isinstance(res, Raised):
        raise Infeasible  # C19.export
    new = k.returns('loads', k._do(lambda: k.ip.instantiate(k.cls('reports.SimReport'), [], {'file': p})))
    k.ensure('name', zeq(k.get(new, 'test_name'), r.name), 'test name')
    k.ensure('description', zeq(k.get(new, 'test_description'), r.text), 'description')

    def time(got, want):
        return rterm(got.s) == rterm(want.s) if isinstance(got, TD) else False

    for n, t in r.tables.items():
        t.check(n, k.get(new, n), time)
    u = k.get(new, 'time_unit')
    k.ensure('unit', u is None or isinstance(u, str) and u in ALIAS, 'a later export finds a supported unit')


@contract('C19.refused', 'reports.SimReport.export_to_json')
def refused(k):
    """an unsupported unit is refused, nothing is written and nothing changes"""
    r = Report(k)
    p = r.path()
    k.raises('refused', k.meth(r.rep, 'export_to_json', p, bad_unit(k)), 'UserConfigError')
    k.ensure('no_file', not cur().extra.get('files'), 'no file written')
    r.unchanged()


@contract('C19.missing', 'reports.SimReport.__init__')
def missing(k):
    """a file that does not exist is reported as such"""
    r = Report(k)
    k.raises('missing', k._do(lambda: k.ip.instantiate(k.cls('reports.SimReport'), [], {'file': r.path()})), 'FileNotFoundError')
