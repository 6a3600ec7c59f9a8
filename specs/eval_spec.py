"""Reference expression evaluator, written from the property statement (typed operator semantics, laziness, evaluation order)"""

import datetime
import math
from fractions import Fraction

from specs.value_spec import REGEX_TYPE, spec_boolean, spec_compare, spec_is_number, spec_local


class NonFinite(Exception):
    """An intermediate number left the finite range"""


class Undefined(Exception):
    """Undefined function - a runtime error"""


def spec_string_simple(v):
    """Stringification of the scalar types; None if the type is decided elsewhere (datetime, array, object, fractional numbers)"""
    if v is None:
        return 'null'
    if v is True:
        return 'true'
    if v is False:
        return 'false'
    if isinstance(v, str):
        return v
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float) and v.is_integer() and abs(v) < 1e15:
        return '-0' if v == 0 and math.copysign(1, v) < 0 else str(int(v))
    if isinstance(v, REGEX_TYPE):
        return '<regex>'
    if not isinstance(v, (float, datetime.date, list, dict)) and callable(v):
        return '<function>'
    return None


def spec_string(v):
    res = spec_string_simple(v)
    if res is None:
        from bare_script.value import value_string  # pylint: disable=import-outside-toplevel
        return value_string(v)
    return res


def offset_ms(dt, ms):
    """dt + ms milliseconds, or None when it leaves the calendar"""
    if isinstance(ms, float) and not math.isfinite(ms):
        return None
    try:
        return spec_local(dt) + datetime.timedelta(milliseconds=ms)
    except OverflowError:
        return None


def diff_ms(left, right):
    """left - right in milliseconds (rounded half away from zero)"""
    micros = (spec_local(left) - spec_local(right)) // datetime.timedelta(microseconds=1)
    whole, rest = divmod(abs(micros), 1000)
    whole += rest >= 500
    return whole if micros >= 0 else -whole


def spec_operator(op, l, r):
    """The (non-short-circuiting) binary operators; null for unsupported operand types and undefined results"""
    if op == '==':
        return spec_compare(l, r) == 0
    if op == '!=':
        return spec_compare(l, r) != 0
    if op == '<':
        return spec_compare(l, r) == -1
    if op == '<=':
        return spec_compare(l, r) != 1
    if op == '>':
        return spec_compare(l, r) == 1
    if op == '>=':
        return spec_compare(l, r) != -1
    if spec_is_number(l) and spec_is_number(r):
        try:
            if op == '+':
                res = l + r
            elif op == '-':
                res = l - r
            elif op == '*':
                res = float(l) * float(r)
            elif op == '/':
                res = l / r if r != 0 else None
            elif op == '%':
                res = l % r if r != 0 else None
            else:
                res = float(l) ** float(r)
                if isinstance(res, complex):
                    res = None
        except ZeroDivisionError:
            return None
        except OverflowError as exc:
            raise NonFinite() from exc
        if isinstance(res, float) and not math.isfinite(res):
            raise NonFinite()
        return res
    if op == '+':
        if isinstance(l, str) or isinstance(r, str):
            return spec_string(l) + spec_string(r)
        if isinstance(l, datetime.date) and spec_is_number(r):
            return offset_ms(l, r)
        if isinstance(r, datetime.date) and spec_is_number(l):
            return offset_ms(r, l)
    if op == '-' and isinstance(l, datetime.date) and isinstance(r, datetime.date):
        return diff_ms(l, r)
    return None


class SpecEval:
    def __init__(self, globals_=None, locals_=None, aliases=None, options=None, passthrough=()):
        self.globals = globals_
        self.locals = locals_
        self.aliases = aliases or {}
        self.options = options
        self.passthrough = (NonFinite, Undefined) + tuple(passthrough)

    def ev(self, expr):
        (kind, node), = expr.items()
        if kind in ('number', 'string'):
            return node
        if kind == 'variable':
            if node in ('null', 'true', 'false'):
                return {'null': None, 'true': True, 'false': False}[node]
            if self.locals is not None and node in self.locals:
                return self.locals[node]
            return self.globals.get(node) if self.globals is not None else None
        if kind == 'group':
            return self.ev(node)
        if kind == 'unary':
            value = self.ev(node['expr'])
            if node['op'] == '!':
                return not spec_boolean(value)
            return -value if spec_is_number(value) else None
        if kind == 'binary':
            op = node['op']
            left = self.ev(node['left'])
            if op == '&&':
                return self.ev(node['right']) if spec_boolean(left) else left
            if op == '||':
                return left if spec_boolean(left) else self.ev(node['right'])
            return spec_operator(op, left, self.ev(node['right']))
        # Function call
        name = node['name']
        args = node.get('args') or []
        if name == 'if':
            cond = spec_boolean(self.ev(args[0])) if args else False
            chosen = args[1:2] if cond else args[2:3]
            return self.ev(chosen[0]) if chosen else None
        values = [self.ev(arg) for arg in args]
        if self.locals is not None and name in self.locals:
            func = self.locals[name]
        elif self.globals is not None and name in self.globals:
            func = self.globals[name]
        else:
            func = self.aliases.get(name)
        if func is None:
            raise Undefined(name)
        if not callable(func) or isinstance(func, (str, list, dict)):
            return None
        try:
            return func(values, self.options)
        except self.passthrough:
            raise
        except Exception as exc:  # pylint: disable=broad-exception-caught
            return getattr(exc, 'return_value', None)


# The documented aliases of the spreadsheet-style built-in expression functions
ALIASES = {
    'abs': 'mathAbs', 'acos': 'mathAcos', 'asin': 'mathAsin', 'atan': 'mathAtan', 'atan2': 'mathAtan2', 'ceil': 'mathCeil',
    'charCodeAt': 'stringCharCodeAt', 'cos': 'mathCos', 'date': 'datetimeNew', 'day': 'datetimeDay', 'endsWith': 'stringEndsWith',
    'indexOf': 'stringIndexOf', 'fixed': 'numberToFixed', 'floor': 'mathFloor', 'fromCharCode': 'stringFromCharCode', 'hour': 'datetimeHour',
    'lastIndexOf': 'stringLastIndexOf', 'len': 'stringLength', 'lower': 'stringLower', 'ln': 'mathLn', 'log': 'mathLog', 'max': 'mathMax',
    'min': 'mathMin', 'millisecond': 'datetimeMillisecond', 'minute': 'datetimeMinute', 'month': 'datetimeMonth', 'now': 'datetimeNow',
    'parseInt': 'numberParseInt', 'parseFloat': 'numberParseFloat', 'pi': 'mathPi', 'rand': 'mathRandom', 'replace': 'stringReplace',
    'rept': 'stringRepeat', 'round': 'mathRound', 'second': 'datetimeSecond', 'sign': 'mathSign', 'sin': 'mathSin', 'slice': 'stringSlice',
    'sqrt': 'mathSqrt', 'startsWith': 'stringStartsWith', 'text': 'stringNew', 'tan': 'mathTan', 'today': 'datetimeToday', 'trim': 'stringTrim',
    'upper': 'stringUpper', 'year': 'datetimeYear'
}
