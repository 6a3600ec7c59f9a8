"""Obligations of the datetime functions (C16): construction, parts"""

import ast

import z3

from bare_script import library as mod
from pyvc import interp, models
from pyvc import world as w
from pyvc.dsl import inline, obligation, prove_same, value
from pyvc.engine import Lit, PathEnd, SList, SV, Unsupported, ival
from pyvc.obs import evalx, libx
from pyvc.terms import SCRIPT_KINDS, V, World
from specs import lib_spec

DAY = 86400000000
LIMIT = 10 ** 9


#
# The proleptic Gregorian calendar
#


def is_leap(year):
    return z3.And(year % 4 == 0, z3.Or(year % 100 != 0, year % 400 == 0))


def days_before(year, month):
    """Days from 0001-01-01 to the first of the month"""
    y1 = year - 1
    starts = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
    start = z3.IntVal(starts[11])
    for ix in range(10, -1, -1):
        start = z3.If(month == ix + 1, starts[ix], start)
    return 365 * y1 + y1 / 4 - y1 / 100 + y1 / 400 + start + z3.If(z3.And(month > 2, is_leap(year)), 1, 0)


def month_days(year, month):
    return z3.If(z3.Or(month == 4, month == 6, month == 9, month == 11), 30, z3.If(month == 2, z3.If(is_leap(year), 29, 28), 31))


DAYS = models.MICROS_MAX // DAY + 1
DB = z3.Function('days_before', z3.IntSort(), z3.IntSort(), z3.IntSort())


def calendar_facts(f, year, month):
    """The facts about the days before a month that the proofs use (datetimeNew.calendar_facts proves them of the calendar)"""
    n = month_days(year, month)
    return z3.And(z3.Implies(z3.And(month >= 1, month < 12), f(year, month + 1) == f(year, month) + n), f(year + 1, 1) == f(year, 12) + 31,
                  z3.Implies(z3.And(month > 1, month <= 12), f(year, month) == f(year, month - 1) + month_days(year, month - 1)), f(year, 1) == f(year - 1, 12) + 31,
                  z3.Implies(z3.And(month >= 1, month <= 12, year >= 1), f(year, month) >= 0),
                  z3.Implies(z3.And(month >= 1, month <= 12, year <= 0), f(year, month) + n <= 0),
                  z3.Implies(z3.And(month >= 1, month <= 12, year <= 9999), f(year, month) + n <= DAYS),
                  z3.Implies(z3.And(month >= 1, month <= 12, year >= 10000), f(year, month) >= DAYS),
                  z3.Implies(z3.And(month >= 1, month <= 12, year >= 1), z3.And(f(year, month) >= 365 * (year - 1), f(year, month) <= 366 * year)),
                  z3.Implies(z3.And(month >= 1, month <= 12, year <= 0), z3.And(f(year, month) >= 366 * (year - 1) - 2, f(year, month) <= 365 * year)))


@obligation('datetimeNew.calendar_facts', ['C16'], ['library._datetime_new'])
def _(ip):
    """Lemma: the proleptic Gregorian calendar (days_before) satisfies the facts"""
    year, month = ip.input('int', 'year').t, ip.pick(list(range(1, 13)))
    for fact in calendar_facts(lambda y, m: days_before(y, m if not isinstance(m, int) else z3.IntVal(m)), year, z3.IntVal(month)).children():
        ip.prove(fact, 'a fact of the calendar')


def days(ip, year, month):
    """The days before the month, known by the facts"""
    ip.assume(calendar_facts(DB, year, month))
    return DB(year, month)


def datetime_contract(ip, args, kwargs):
    """datetime.datetime(year, ...): the instant of a valid calendar date and time, else ValueError"""
    if kwargs or not 3 <= len(args) <= 7:
        raise Unsupported('datetime keyword arguments')
    terms = []
    for arg in args:
        t = models.num_term(ip.unwrap(arg))
        if t is None or t.sort() != z3.IntSort():
            ip.raise_(TypeError, 'an integer is required')
        terms.append(t)
    terms += [z3.IntVal(0)] * (7 - len(terms))
    year, month, day, hour, minute, second, micro = terms
    valid = z3.And(year >= 1, year <= 9999, month >= 1, month <= 12, day >= 1, day <= month_days(year, month), hour >= 0, hour < 24, minute >= 0, minute < 60,
                   second >= 0, second < 60, micro >= 0, micro < 1000000)
    if not ip.branch(valid):
        ip.raise_(ValueError, 'not a date')
    return SV('val', V.dtn(instant(ip, year, month, day, hour, minute, second, micro)))


def instant(ip, year, month, day, hour, minute, second, micro):
    return (days(ip, year, month) + day - 1) * DAY + ((hour * 60 + minute) * 60 + second) * 1000000 + micro


#
# Loops with an invariant
#


def invariant_loop(ip, frame, node, invariant):
    """A while loop: the invariant holds before the test, every time. The assigned locals are arbitrary but for it (they keep their kind)."""
    if not isinstance(node, ast.While) or node.orelse:
        raise Unsupported('loop')
    names = [name for name in interp.stored_names(node) if name in frame.locals]
    ip.prove(invariant(ip, frame), 'the invariant of the loop at the beginning')
    where = ip.pick(['iteration', 'exit'])
    for name in interp.stored_names(node):
        if name not in names:
            frame.forgotten.add(name)
    for name in names:
        old = ip.unwrap(frame.locals[name])
        t = models.num_term(old)
        if t is None:
            raise Unsupported(f'kind of {name} in a loop')
        n = ip.fresh('int', name)
        frame.locals[name] = n if t.sort() == z3.IntSort() else SV('real', z3.ToReal(n.t))
    ip.assume(invariant(ip, frame))
    test = ip.truth(interp.ev(ip, frame, node.test))
    if where == 'exit':
        if test:
            raise PathEnd()
        return None
    if not test:
        raise PathEnd()
    signal = interp.block(ip, frame, node.body)
    if signal is not None and signal[0] != 'continue':
        raise Unsupported('a jump out of the loop')
    ip.prove(invariant(ip, frame), 'an iteration preserves the invariant of the loop')
    raise PathEnd()


def local_int(ip, frame, name):
    """The local, as an integer term"""
    if name not in frame.locals:
        raise Unsupported(f'no local {name}')
    t = models.num_term(ip.unwrap(frame.locals[name]))
    if t is None:
        raise Unsupported(f'kind of {name}')
    return t if t.sort() == z3.IntSort() else models.as_int(t) if models.as_int(t) is not None else z3.ToInt(t)


def day_loop(ip, frame, node, spc):
    """The loops that move whole months into or out of the day: they keep the date, and a valid month"""
    if spc is not None or not isinstance(node, ast.While):
        return NotImplemented
    year, month, day = (local_int(ip, frame, name) for name in ('year', 'month', 'day'))
    date = z3.simplify(days(ip, year, month) + day)
    known_length = 'month_days' in frame.locals

    def invariant(ip2, frm):
        y, m, d = (local_int(ip2, frm, name) for name in ('year', 'month', 'day'))
        parts = [m >= 1, m <= 12, days(ip2, y, m) + d == date]
        if known_length:
            parts += [d >= 1, d <= day, local_int(ip2, frm, 'month_days') == month_days(y, m)]
        else:
            parts += [d >= day, d <= month_days(y, m)]
        return z3.And(*parts)
    return invariant_loop(ip, frame, node, invariant)


def calendar(ip, spelling, count, part=None):
    """datetimeNew of integral components: the instant that proleptic-Gregorian calendar arithmetic gives"""
    ip.world = z3.Const('W0', World)
    evalx.contracts(ip)
    ip.contracts['datetime'] = datetime_contract
    ip.loop_contracts['*'] = day_loop
    names = ('year', 'month', 'day', 'hour', 'minute', 'second', 'millisecond')[:count]
    terms = []
    for name in names:
        t = ip.input('int', name).t
        ip.assume(z3.And(t >= -LIMIT, t <= LIMIT))
        terms.append(t)
    ip.assume(z3.And(terms[0] >= 100, terms[2] >= -10000, terms[2] <= 10000))
    if part is not None:
        ip.assume(z3.And(terms[1] >= 1, terms[1] <= 12) == part[0])
        ip.assume(z3.And(terms[6] >= 0, terms[6] < 1000) == part[1])
    args = [SV('int', t) if spelling == 'int' else SV('real', z3.ToReal(t)) for t in terms]
    got = libx.end_of(ip, lambda: inline(ip, mod.SCRIPT_FUNCTIONS['datetimeNew'], SList(ip, Lit(args)), None).unwrap(), None)
    year, month, day, hour, minute, second, milli = terms + [z3.IntVal(0)] * (7 - count)
    months = year * 12 + month - 1
    want = instant(ip, months / 12, months % 12 + 1, day, hour, minute, second, milli * 1000)
    ip.prove(got[0] == 'value', 'a value')
    if got[1] is None:
        ip.prove(z3.Or(want < 0, want > models.MICROS_MAX), 'null only outside the years 1 to 9999')
    else:
        ip.prove(ip.to_v(got[1]) == V.dtn(want), 'the instant')


for _spelling in ('int', 'float'):
    for _count in (3, 5):
        obligation(f'datetimeNew.calendar ({_spelling}, {_count} components)', ['C16', 'C12'], ['library._datetime_new'], limit_s=200)(
            lambda ip, spelling=_spelling, count=_count: calendar(ip, spelling, count))
    for _month in (True, False):
        for _milli in (True, False):
            obligation(f'datetimeNew.calendar ({_spelling}, 7 components, month {"in" if _month else "out of"} range, millisecond {"in" if _milli else "out of"} range)',
                       ['C16', 'C12'], ['library._datetime_new'], limit_s=200)(
                lambda ip, spelling=_spelling, part=(_month, _milli): calendar(ip, spelling, 7, part))
