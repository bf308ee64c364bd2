"""Converting the times of a report."""

import z3

from .c19 import ASSUMPTIONS as C19
from .c19 import Report, bad_unit, factor
from .c01 import ALIAS
from .kit import *  # noqa: F403
from .kit import contract, zeq

ASSUMPTIONS = [a for a in C19 if 'timedelta' in a or 'library' in a]
CONV = 'reports.SimReport.convert_report_time'


def converted(k, r, u):
    """every time is the number of the unit, everything else as it was"""
    f = factor(u)

    def time(got, want):
        return rterm(got) * f == rterm(want.s) if is_num(got) else False

    r.tables['measurements'].check('measurements', k.get(r.rep, 'measurements'), time)
    r.tables['test_summary'].check('test_summary', k.get(r.rep, 'test_summary'))
    k.ensure('names', z3.And(zeq(k.get(r.rep, 'test_name'), r.name), zeq(k.get(r.rep, 'test_description'), r.text)), 'name and description')


@contract('C23.convert', CONV)
def convert(k):
    """the time of every measurement becomes its number of the unit (hours when none is given); nothing else changes"""
    r = Report(k, k.pick(None, ('loaded', 'days')))
    u = k.pick(*ALIAS)
    args = () if u is None and k.pick(True, False) else (u,)
    k.returns('returns', k.meth(r.rep, 'convert_report_time', *args))
    converted(k, r, u)


@contract('C23.again', CONV)
def again(k):
    """times that were converted before are converted from the unit they are in"""
    r = Report(k, ('converted', k.pick(*sorted(set(ALIAS.values())), 'us')))
    u = k.pick(*ALIAS)
    k.returns('returns', k.meth(r.rep, 'convert_report_time', u))
    converted(k, r, u)


@contract('C23.repeated', CONV)
def repeated(k):
    """however often the times are converted, they are the numbers of the last unit"""
    r = Report(k, k.pick(None, ('loaded', 'days'), ('converted', 'days'), ('converted', 'ms')))
    for step, units in (('first', ('h', 'seconds')), ('second', ('days', 'hours')), ('third', ('us', 'h'))):
        u = k.pick(*units)
        k.returns(f'{step}.returns', k.meth(r.rep, 'convert_report_time', u))
    converted(k, r, u)


@contract('C23.refused', CONV)
def refused(k):
    """an unsupported unit is refused and the report stays as it is"""
    r = Report(k)
    if r.tables['measurements'].empty:
        raise Infeasible
    k.raises('refused', k.meth(r.rep, 'convert_report_time', bad_unit(k)), 'UserConfigError')
    r.unchanged()
