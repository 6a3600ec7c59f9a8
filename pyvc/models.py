"""The assumed contracts of the host: Python's operators, built-ins and the library functions the package calls.

Concrete arguments are computed by the host itself. Symbolic arguments follow the rules below; what has no rule is an uninterpreted function of the arguments
(same arguments, same result; possible exceptions are forked), or Unsupported.
"""

import ast
import builtins
import calendar
import datetime
import functools
import itertools
import json
import math
import operator
import re
import urllib.parse
import uuid

import z3

from pyvc.engine import (CAT, CLEN, DKEYS, Base, Bound, Cat, Closure, EObj, ExcObj, GenExp, LazyIter, Lit, MapC, Model, Opaque, Partial, PathEnd, PyExc, Rec, SDict,
                         SList, Slice, Space, SpaceIter, SV, Unsupported, content_cat, eq_num, ival, mk_bool, num_term, real_of_float, simp, slice_bounds,
                         str_term, to_real)
from pyvc.terms import STR_RANK, V, Content, DContent, func

MICROS_MAX = (datetime.datetime.max - datetime.datetime.min) // datetime.timedelta(microseconds=1)
EXACT = 2 ** 53


class SymSet(EObj):
    py_class = set

    def __init__(self, items):
        self.items = list(items)

    def contains(self, ip, item):
        for element in self.items:
            if ip.truth(ip.py_eq(item, element)):
                return True
        return False

    def truth(self, ip):
        return bool(self.items)

    def length(self, ip):
        raise Unsupported('size of a symbolic set')

    def getattr(self, ip, name):
        return Bound(self, name)


class TimeDelta(EObj):
    """A timedelta: its microseconds"""

    py_class = datetime.timedelta

    def __init__(self, t):
        self.t = t

    def getattr(self, ip, name):
        return Bound(self, name)

    def truth(self, ip):
        return ip.branch(self.t != 0)


class Match(EObj):
    """A regex match: the groups are functions of the pattern and the text"""

    py_class = re.Match

    def __init__(self, pattern, how, text):
        self.pattern = pattern
        self.how = how
        self.text = text

    def group(self, ip, name):
        if isinstance(name, str):
            if name not in self.pattern.groupindex:
                ip.raise_(IndexError, 'no such group')
            ix = self.pattern.groupindex[name]
        else:
            ix = name
            if not isinstance(ix, int):
                raise Unsupported('symbolic group number')
            if not 0 <= ix <= self.pattern.groups:
                ip.raise_(IndexError, 'no such group')
        tag = f'{self.how}:{self.pattern.pattern}:{self.pattern.flags}'
        if ix == 0 and self.how == 'fullmatch':
            return SV('str', self.text)
        text = func(f'group:{ix}:{tag}', ['str'], 'str')(self.text)
        if ix == 0 or group_always(self.pattern, ix) or ip.branch(func(f'has_group:{ix}:{tag}', ['str'], 'bool')(self.text)):
            if ix in layout(self.pattern)['digits']:
                # int() takes decimal digits
                ip.assume(func('raises:int_of_str', ['str'], 'int')(text) == 0)
            constant = layout(self.pattern)['text'].get(ix)
            if constant is not None:
                return constant
            self.place(ip, ix)
            choices = layout(self.pattern)['choices'].get(ix)
            if choices is not None:
                ip.assume(z3.Or([text == z3.StringVal(choice) for choice in choices]))
            return SV('str', text)
        return None

    def span(self, ix):
        """(start, length) of a group"""
        tag = f'{self.how}:{self.pattern.pattern}:{self.pattern.flags}'
        if ix == 0 and self.how in ('match', 'fullmatch'):
            start = z3.IntVal(0)
        else:
            start = func(f'start:{ix}:{tag}', ['str'], 'int')(self.text)
        return start, z3.Length(func(f'group:{ix}:{tag}', ['str'], 'str')(self.text))

    def place(self, ip, ix):
        """Where a group that takes part in the match lies: in its enclosing group, at the distances that the pattern fixes"""
        while True:
            start, length = self.span(ix)
            ip.assume(z3.And(start >= 0, start + length <= z3.Length(self.text)))
            if ix == 0:
                if layout(self.pattern)['whole'] or self.how == 'fullmatch':
                    # $ also matches before a line feed that ends the text
                    ip.assume(z3.Implies(z3.Not(z3.Contains(self.text, z3.StringVal('\n'))), start + length == z3.Length(self.text)))
                return
            outer, left, right = layout(self.pattern)['place'][ix]
            outer_start, outer_length = self.span(outer)
            ip.assume(z3.And(outer_start <= start, start + length <= outer_start + outer_length))
            if left is not None:
                ip.assume(start == outer_start + left)
            if right is not None:
                ip.assume(start + length + right == outer_start + outer_length)
            ix = outer

    def getattr(self, ip, name):
        return Bound(self, name)


_LAYOUTS = {}


def layout(pattern):
    """What the parsed pattern says about its groups: 'place' {group: (enclosing group, distance to its start or None, distance to its end or None)}, 'text' {group: the
    only text of the group}, 'choices' {group: the texts of the group, if they are few}, 'whole' (a match ends at $)"""
    if pattern not in _LAYOUTS:
        from re import _parser  # pylint: disable=import-outside-toplevel

        tree = _parser.parse(pattern.pattern, pattern.flags)
        place, texts, choices, digits = {}, {}, {}, set()

        def width(items):
            sub = _parser.SubPattern(tree.state, list(items))
            low, high = sub.getwidth()
            return low if low == high else None

        def total(a, b):
            return a + b if a is not None and b is not None else None

        def walk(items, outer, left, right, loose=False):
            # left, right: the distances of the items from the ends of the enclosing group
            items = list(items)
            for ix, (op, arg) in enumerate(items):
                name = str(op)
                before, after = total(left, width(items[:ix])), total(right, width(items[ix + 1:]))
                if name == 'SUBPATTERN':
                    if arg[0] is not None:
                        place[arg[0]] = (outer, before, after) if not loose else (0, None, None)
                        if all(str(op2) == 'LITERAL' for op2, _ in arg[3]) and not pattern.flags & re.IGNORECASE:
                            texts[arg[0]] = ''.join(chr(code) for _, code in arg[3])
                        elif not pattern.flags & re.IGNORECASE:
                            found = language(arg[3])
                            if found is not None:
                                choices[arg[0]] = sorted(found)
                        if len(arg[3]) == 1 and is_digits(arg[3][0]):
                            digits.add(arg[0])
                        walk(arg[3], arg[0], 0, 0, loose)
                    else:
                        walk(arg[3], outer, before, after, loose)
                elif name in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                    if arg[1] == 1:
                        walk(arg[2], outer, before, after, loose)
                    else:
                        # The groups of different iterations
                        walk(arg[2], outer, None, None, True)
                elif name == 'BRANCH':
                    for branch in arg[1]:
                        walk(branch, outer, before, after, loose)
                elif name == 'ATOMIC_GROUP':
                    walk(arg, outer, before, after, loose)
                elif name in ('ASSERT', 'ASSERT_NOT', 'GROUPREF_EXISTS'):
                    walk_assert(arg)

        def is_digits(item):
            op, arg = item
            if str(op) in ('MAX_REPEAT', 'MIN_REPEAT'):
                return 0 < arg[0] and arg[1] <= 1000 and len(arg[2]) == 1 and is_digits(arg[2][0])
            return str(op) == 'IN' and len(arg) == 1 and (str(arg[0][1]) == 'CATEGORY_DIGIT' or str(arg[0][0]) == 'RANGE' and 48 <= arg[0][1][0] <= arg[0][1][1] <= 57)

        def language(items):
            # The texts of the items, or None if they are not few
            found = {''}
            for op, arg in items:
                name = str(op)
                if name == 'LITERAL':
                    texts2 = {chr(arg)}
                elif name == 'IN' and all(str(op2) == 'LITERAL' for op2, _ in arg):
                    texts2 = {chr(code) for _, code in arg}
                elif name == 'BRANCH':
                    branches = [language(branch) for branch in arg[1]]
                    texts2 = None if None in branches else set().union(*branches)
                elif name in ('MAX_REPEAT', 'MIN_REPEAT') and arg[1] == 1:
                    texts2 = language(arg[2])
                    if texts2 is not None and arg[0] == 0:
                        texts2 = texts2 | {''}
                else:
                    texts2 = None
                if texts2 is None or len(found) * len(texts2) > 50:
                    return None
                found = {a + b for a in found for b in texts2}
            return found

        def walk_assert(arg):
            # Groups in other places are not placed
            for sub in arg:
                if isinstance(sub, _parser.SubPattern):
                    for op, arg2 in sub:
                        if str(op) == 'SUBPATTERN':
                            raise Unsupported('group in an assertion')

        walk(tree, 0, 0, 0)
        items = list(tree)
        whole = bool(items) and str(items[-1][0]) == 'AT' and str(items[-1][1]) in ('AT_END', 'AT_END_STRING') and not pattern.flags & re.MULTILINE
        _LAYOUTS[pattern] = {'place': place, 'text': texts, 'choices': choices, 'whole': whole, 'digits': digits}
    return _LAYOUTS[pattern]


_ALWAYS = {}


def group_always(pattern, ix):
    """Does the group take part in every match? (computed from the parsed pattern)"""
    if pattern not in _ALWAYS:
        from re import _parser  # pylint: disable=import-outside-toplevel

        always = set()

        def walk(items):
            for op, arg in items:
                name = str(op)
                if name == 'SUBPATTERN':
                    if arg[0] is not None:
                        always.add(arg[0])
                    walk(arg[3])
                elif name in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                    if arg[0] > 0:
                        walk(arg[2])
                elif name == 'ATOMIC_GROUP':
                    walk(arg)

        walk(_parser.parse(pattern.pattern, pattern.flags))
        _ALWAYS[pattern] = always
    return ix in _ALWAYS[pattern]


#
# Concrete evaluation
#


class NotConcrete(Exception):
    pass


def native(x, depth=0):
    """The host value of an engine value without symbolic parts"""
    if depth > 50:
        raise NotConcrete()
    if isinstance(x, SV):
        t = z3.simplify(x.t)
        if x.k == 'str' and z3.is_string_value(t):
            return unescape(t)
        if x.k == 'int' and z3.is_int_value(t):
            return t.as_long()
        if x.k == 'bool' and (z3.is_true(t) or z3.is_false(t)):
            return z3.is_true(t)
        raise NotConcrete()
    if isinstance(x, SList):
        if isinstance(x.content, Lit):
            return [native(item, depth + 1) for item in x.content.items]
        raise NotConcrete()
    if isinstance(x, SDict):
        items = x.concrete()
        if items is None:
            raise NotConcrete()
        return {key: native(value, depth + 1) for key, value in items.items()}
    if isinstance(x, tuple):
        return tuple(native(item, depth + 1) for item in x)
    if isinstance(x, LazyIter):
        return [native(item, depth + 1) for item in list(x.gen)]
    if isinstance(x, EObj):
        raise NotConcrete()
    return x


def unescape(t):
    text = t.as_string()
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), text)


def lift(ip, x):
    """The engine value of a host value (fresh containers become engine containers)"""
    if isinstance(x, list):
        return SList(ip, Lit([lift(ip, item) for item in x]))
    if isinstance(x, dict):
        return SDict(ip, None, [(key, lift(ip, value)) for key, value in x.items()])
    if isinstance(x, tuple):
        return tuple(lift(ip, item) for item in x)
    return x


def run_native(ip, fn, args, kwargs):
    try:
        result = fn(*args, **kwargs)
    except Exception as exc:  # pylint: disable=broad-exception-caught
        raise PyExc(ExcObj(type(exc), list(exc.args))) from exc
    return lift(ip, result)


#
# Operators
#


def as_int(t):
    """The integer term of a real term that is an integer by its form, or None"""
    if z3.is_rational_value(t):
        return z3.IntVal(t.as_fraction().numerator) if t.as_fraction().denominator == 1 else None
    if z3.is_app(t):
        kind = t.decl().kind()
        if kind == z3.Z3_OP_TO_REAL:
            return t.arg(0)
        if kind in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            parts = [as_int(t.arg(ix)) for ix in range(t.num_args())]
            if any(part is None for part in parts):
                return None
            if kind == z3.Z3_OP_UMINUS:
                return -parts[0]
            total = parts[0]
            for part in parts[1:]:
                total = total + part if kind == z3.Z3_OP_ADD else (total - part if kind == z3.Z3_OP_SUB else total * part)
            return total
        if kind == z3.Z3_OP_ITE:
            yes, no = as_int(t.arg(1)), as_int(t.arg(2))
            return z3.If(t.arg(0), yes, no) if yes is not None and no is not None else None
    return None


def exact_op(ip, name, a, b):
    """The result of a float operation on integral floats that are certainly in the exact range, or None"""
    x, y = as_int(a), as_int(b)
    if x is None or y is None or name not in ('fadd', 'fsub', 'fmul', 'fmod', 'ffloordiv'):
        return None
    if z3.is_int_value(x) and z3.is_int_value(y):
        return None
    yt = z3.simplify(y)
    if name in ('fmod', 'ffloordiv') and not (z3.is_int_value(yt) and yt.as_long() > 0):
        return None
    if name == 'fmul' and not z3.is_int_value(yt) and not z3.is_int_value(z3.simplify(x)):
        return None
    result = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fmod': lambda: x % y, 'ffloordiv': lambda: x / y}[name]()
    inside = z3.And(*[z3.And(t <= EXACT, t >= -EXACT) for t in (x, y, result)])
    if ip.check(z3.Not(inside)) != z3.unsat:
        return None
    return SV('real', z3.ToReal(z3.simplify(result)))


def float_op(ip, name, a, b):
    """A float operation on reals: uninterpreted, exact where IEEE arithmetic is exact on integers"""
    a, b = z3.simplify(to_real(a)), z3.simplify(to_real(b))
    exactly = exact_op(ip, name, a, b)
    if exactly is not None:
        return exactly
    if name == 'fmul' and any(z3.is_rational_value(x) and x.as_fraction() == 1 for x in (a, b)):
        return SV('real', a if z3.is_rational_value(b) and b.as_fraction() == 1 else b)
    if name in ('fadd', 'fmul') and a.get_id() > b.get_id():
        a, b = b, a
    t = func(name, ['real', 'real'], 'real')(a, b)
    if name in ('fadd', 'fsub', 'fmul'):
        if name != 'fmul' or z3.is_rational_value(a) or z3.is_rational_value(b):
            exact = a + b if name == 'fadd' else (a - b if name == 'fsub' else a * b)
            ip.assume(z3.Implies(z3.And(z3.IsInt(a), z3.IsInt(b), exact <= EXACT, exact >= -EXACT), t == exact))
            rounding(ip, t, exact)
    elif name == 'fdiv':
        if z3.is_rational_value(b) and b.as_fraction() == 1:
            ip.assume(t == a)
        elif z3.is_rational_value(b) and b.as_fraction() != 0:
            rounding(ip, t, a / b)
    elif name == 'fmod':
        ip.assume(z3.Implies(z3.And(z3.IsInt(a), z3.IsInt(b), a <= EXACT, a >= -EXACT, b <= EXACT, b >= -EXACT),
                             t == z3.ToReal(func('int_mod', ['int', 'int'], 'int')(z3.ToInt(a), z3.ToInt(b)))))
    return SV('real', t)


def rounding(ip, t, exact):
    """The standard model of float rounding (normal range)"""
    u = z3.Q(1, 2 ** 53)
    tiny = z3.Q(1, 2 ** 1000)
    ip.assume(z3.And(t - exact <= u * z3.If(exact >= 0, exact, -exact) + tiny, exact - t <= u * z3.If(exact >= 0, exact, -exact) + tiny))


OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
       ast.Pow: operator.pow, ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.BitXor: operator.xor, ast.LShift: operator.lshift,
       ast.RShift: operator.rshift}


def binary(ip, op, left, right):
    left, right = ip.unwrap(left), ip.unwrap(right)
    if not isinstance(left, (SV, EObj)) and not isinstance(right, (SV, EObj)):
        if isinstance(left, tuple) and isinstance(right, tuple) and op is ast.Add:
            return left + right
        if isinstance(left, (list, dict)) or isinstance(right, (list, dict)):
            left, right = lift(ip, left), lift(ip, right)
            return binary(ip, op, left, right)
        return run_native(ip, OPS[op], [left, right], {})
    a, b = num_term(left), num_term(right)
    if a is not None and b is not None:
        return arithmetic(ip, op, left, right, a, b)
    sa, sb = str_term(left), str_term(right)
    if op is ast.Add and sa is not None and sb is not None:
        if isinstance(left, str) and left == '':
            return right
        if isinstance(right, str) and right == '':
            return left
        return SV('str', z3.simplify(z3.Concat(sa, sb)))
    if op is ast.Add and isinstance(left, SList) and isinstance(right, SList):
        return SList(ip, content_cat(left.content, right.content))
    if op is ast.Mult and sa is not None and b is not None:
        if isinstance(right, SV) and right.k == 'real':
            ip.raise_(TypeError, "can't multiply sequence by non-int of type 'float'")
        return SV('str', func('str_repeat', ['str', 'int'], 'str')(sa, b))
    if op is ast.Mult and isinstance(left, SList) and b is not None and not (isinstance(right, SV) and right.k == 'real'):
        n = simp(b)
        if isinstance(left.content, Lit) and len(left.content.items) == 1:
            item = left.content.items[0]
            if isinstance(n, int):
                return SList(ip, Lit([item] * n))
            if ip.branch(n <= 0):
                return SList(ip, Lit([]))
            return SList(ip, MapC(n, lambda ip2, k: item))
        if isinstance(n, int) and isinstance(left.content, Lit):
            return SList(ip, Lit(left.content.items * n))
    if op is ast.Mod and isinstance(left, (str, SV)) and sa is not None:
        raise Unsupported('% formatting')
    kl, kr = value_kind(ip, left), value_kind(ip, right)
    if isinstance(right, TimeDelta) and kl in ('dtn', 'dta', 'date') and op in (ast.Add, ast.Sub):
        if kl != 'dtn':
            raise Unsupported('arithmetic on a date or aware datetime')
        total = simp(V.n(left.t) + right.t) if op is ast.Add else simp(V.n(left.t) - right.t)
        return in_calendar(ip, total)
    if isinstance(left, TimeDelta) and kr == 'dtn' and op is ast.Add:
        return in_calendar(ip, simp(V.n(right.t) + left.t))
    if isinstance(left, TimeDelta) and isinstance(right, TimeDelta):
        if op is ast.Add:
            return TimeDelta(left.t + right.t)
        if op is ast.Sub:
            return TimeDelta(left.t - right.t)
        if op is ast.FloorDiv:
            if ip.branch(right.t == 0):
                ip.raise_(ZeroDivisionError, 'integer division or modulo by zero')
            rt = z3.simplify(right.t)
            if z3.is_int_value(rt) and rt.as_long() > 0:
                return SV('int', left.t / rt)
        if op is ast.Div:
            if ip.branch(right.t == 0):
                ip.raise_(ZeroDivisionError, 'division by zero')
            return float_op(ip, 'fdiv', left.t, right.t)
        raise Unsupported('timedelta arithmetic')
    if isinstance(left, TimeDelta) and b is not None and op is ast.Div:
        raise Unsupported('timedelta / number')
    if isinstance(left, TimeDelta) and op is ast.FloorDiv and isinstance(right, datetime.timedelta):
        return binary(ip, op, left, TimeDelta(z3.IntVal(right // datetime.timedelta(microseconds=1))))
    if isinstance(right, datetime.timedelta):
        return binary(ip, op, left, TimeDelta(z3.IntVal(right // datetime.timedelta(microseconds=1))))
    if isinstance(left, datetime.timedelta):
        return binary(ip, op, TimeDelta(z3.IntVal(left // datetime.timedelta(microseconds=1))), right)
    if op is ast.Sub and kl == kr == 'dtn':
        return TimeDelta(simp_int(V.n(as_v(ip, left)) - V.n(as_v(ip, right))))
    if op is ast.Sub and kl in ('dtn', 'dta') and kr in ('dtn', 'dta') and kl != kr:
        ip.raise_(TypeError, "can't subtract offset-naive and offset-aware datetimes")
    if kl is not None and kr is not None or kl is None and not isinstance(left, EObj) or kr is None and not isinstance(right, EObj):
        if not any(kind in ('dta', 'date', 'other') for kind in (kl, kr)) and not isinstance(left, TimeDelta) and not isinstance(right, TimeDelta):
            ip.raise_(TypeError, 'unsupported operand types')
    raise Unsupported(f'{op.__name__} of {describe(left)} and {describe(right)}')


def describe(x):
    return f'{x.k}:{x.t.sort()}' if isinstance(x, SV) else type(x).__name__


def as_v(ip, x):
    return ip.to_v(x)


def simp_int(t):
    t = z3.simplify(t)
    return t


def value_kind(ip, x):
    """The kind of an unwrapped value (None: not a value of V)"""
    if isinstance(x, SV):
        return ip.kind(x) if x.k == 'val' else {'bool': 'bool', 'int': 'int', 'real': 'flt', 'str': 'str'}[x.k]
    if x is None:
        return 'none'
    if isinstance(x, bool):
        return 'bool'
    if isinstance(x, int):
        return 'int'
    if isinstance(x, float):
        return 'flt'
    if isinstance(x, str):
        return 'str'
    if isinstance(x, datetime.datetime):
        return 'dtn' if x.tzinfo is None else 'dta'
    if isinstance(x, datetime.date):
        return 'date'
    if isinstance(x, (list, SList)):
        return 'list'
    if isinstance(x, (dict, SDict)):
        return 'dict'
    if isinstance(x, (Closure, Model, Partial, Bound)):
        return 'fn'
    return None


def in_calendar(ip, total):
    """A naive datetime, or OverflowError outside the calendar"""
    total = ival(total)
    if ip.branch(z3.And(total >= 0, total <= MICROS_MAX)):
        return SV('val', V.dtn(total))
    return ip.raise_(OverflowError, 'date value out of range')


def int_div(ip, name, a, b):
    bt = z3.simplify(b)
    if z3.is_int_value(bt) and bt.as_long() > 0:
        return a % bt if name == 'int_mod' else a / bt
    return func(name, ['int', 'int'], 'int')(a, b)


def arithmetic(ip, op, left, right, a, b):
    ints = a.sort() == z3.IntSort() and b.sort() == z3.IntSort()
    if op in (ast.Add, ast.Sub, ast.Mult):
        if ints:
            t = a + b if op is ast.Add else (a - b if op is ast.Sub else a * b)
            t = simp(t)
            return t if isinstance(t, int) else SV('int', t)
        return float_op(ip, {ast.Add: 'fadd', ast.Sub: 'fsub', ast.Mult: 'fmul'}[op], a, b)
    if op in (ast.Div, ast.FloorDiv, ast.Mod):
        if ip.branch(b == 0):
            ip.raise_(ZeroDivisionError, 'division by zero')
        if op is ast.Div:
            return float_op(ip, 'fdiv', a, b)
        if ints:
            t = simp(int_div(ip, 'int_mod' if op is ast.Mod else 'int_div', a, b))
            return t if isinstance(t, int) else SV('int', t)
        return float_op(ip, 'fmod' if op is ast.Mod else 'ffloordiv', a, b)
    if op is ast.Pow:
        ra, rb = to_real(a), to_real(b)
        if ints:
            return power_ints(ip, left, right, a, b)
        which = func('pow_outcome', ['real', 'real'], 'int')(ra, rb)
        # A complex result only of a negative base
        pick = ip.choose([which == 0, which == 1, which == 2, z3.And(which != 0, which != 1, which != 2, ra < 0)])
        if pick == 0:
            return SV('real', func('fpow', ['real', 'real'], 'real')(ra, rb))
        if pick == 1:
            ip.raise_(ZeroDivisionError, '0.0 cannot be raised to a negative power')
        if pick == 2:
            ip.raise_(OverflowError, 'Numerical result out of range')
        return Complex()
    if ints and op in (ast.BitOr, ast.BitAnd, ast.BitXor, ast.LShift, ast.RShift):
        if op in (ast.LShift, ast.RShift) and ip.branch(b < 0):
            ip.raise_(ValueError, 'negative shift count')
        return SV('int', func(f'int_{op.__name__}', ['int', 'int'], 'int')(a, b))
    if op in (ast.BitOr, ast.BitAnd, ast.BitXor, ast.LShift, ast.RShift):
        ip.raise_(TypeError, 'unsupported operand types')
    raise Unsupported(f'arithmetic {op.__name__}')


class Complex(EObj):
    py_class = complex


def power_ints(ip, left, right, a, b):
    if ip.branch(b < 0):
        if ip.branch(a == 0):
            ip.raise_(ZeroDivisionError, '0.0 cannot be raised to a negative power')
        return SV('real', func('fpow', ['real', 'real'], 'real')(to_real(a), to_real(b)))
    return SV('int', func('int_pow', ['int', 'int'], 'int')(a, b))


def unary(ip, op, value):
    value = ip.unwrap(value)
    if not isinstance(value, (SV, EObj)):
        return run_native(ip, {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[op], [value], {})
    t = num_term(value)
    if t is not None:
        if op is ast.USub:
            t = simp(-t)
            return t if isinstance(t, int) else SV('int' if t.sort() == z3.IntSort() else 'real', t)
        if op is ast.UAdd:
            return value
    if isinstance(value, TimeDelta) and op is ast.USub:
        return TimeDelta(-value.t)
    if t is None and not isinstance(value, EObj):
        ip.raise_(TypeError, 'bad operand type for unary operator')
    raise Unsupported(f'unary {op.__name__}')


def compare(ip, op, left, right):
    if op is ast.Is:
        return ip.identical(left, right)
    if op is ast.IsNot:
        return negate(ip.identical(left, right))
    if op is ast.In:
        return contains(ip, left, right)
    if op is ast.NotIn:
        return negate(contains(ip, left, right))
    if op is ast.Eq:
        return ip.py_eq(left, right)
    if op is ast.NotEq:
        return negate(ip.py_eq(left, right))
    return order(ip, op, left, right)


def negate(x):
    if isinstance(x, SV):
        return mk_bool(z3.Not(x.t))
    return not x


def order_terms(op, a, b):
    return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[op]


def order(ip, op, left, right):
    left, right = ip.unwrap(left), ip.unwrap(right)
    if not isinstance(left, (SV, EObj)) and not isinstance(right, (SV, EObj)):
        if not (isinstance(left, tuple) and isinstance(right, tuple)):
            return run_native(ip, {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[op], [left, right], {})
        for x, y in zip(left, right):
            if not ip.truth(ip.py_eq(x, y)):
                return order(ip, op, x, y)
        return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[op](len(left), len(right))
    a, b = num_term(left), num_term(right)
    if a is not None and b is not None:
        if a.sort() != b.sort():
            a, b = to_real(a), to_real(b)
        return mk_bool(order_terms(op, a, b))
    sa, sb = str_term(left), str_term(right)
    if sa is not None and sb is not None:
        ip.rank_axiom(sa, sb)
        return mk_bool(order_terms(op, STR_RANK(sa), STR_RANK(sb)))
    if isinstance(left, TimeDelta) and isinstance(right, TimeDelta):
        return mk_bool(order_terms(op, left.t, right.t))
    kl, kr = value_kind(ip, left), value_kind(ip, right)
    if kl == kr == 'dtn':
        return mk_bool(order_terms(op, V.n(as_v(ip, left)), V.n(as_v(ip, right))))
    if kl == kr and kl in ('date', 'dta'):
        rank = func('dt_rank', ['val'], 'int')
        return mk_bool(order_terms(op, rank(as_v(ip, left)), rank(as_v(ip, right))))
    if isinstance(left, SList) and isinstance(right, SList):
        raise Unsupported('host order of lists')
    if kl is None or kr is None or 'other' in (kl, kr):
        raise Unsupported(f'order of {describe(left)} and {describe(right)}')
    return ip.raise_(TypeError, "'<' not supported between instances")


def contains(ip, item, container):
    container = ip.unwrap(container)
    if isinstance(container, EObj):
        return container.contains(ip, item)
    if isinstance(container, SV):
        if container.k == 'str':
            item = ip.unwrap(item)
            sa = str_term(item)
            if sa is None:
                ip.raise_(TypeError, "'in <string>' requires string as left operand")
            known = ip.text_contains(container.t, sa) if hasattr(ip, 'text_contains') else None
            if known is not None:
                return known
            return mk_bool(z3.Contains(container.t, sa))
        ip.raise_(TypeError, 'argument is not iterable')
    item = ip.unwrap(item)
    if id(container) in ip.opaque_dicts:
        return ip.opaque_dicts[id(container)].contains(ip, item)
    try:
        raw = native(item)
        return run_native(ip, operator.contains, [container, raw], {})
    except NotConcrete:
        pass
    if isinstance(container, str):
        return contains(ip, item, SV('str', z3.StringVal(container)))
    if isinstance(container, (tuple, list, set, frozenset, dict)):
        if isinstance(item, (SList, SDict)) and isinstance(container, (set, frozenset, dict)):
            ip.raise_(TypeError, 'unhashable type')
        for element in container:
            if ip.truth(ip.py_eq(item, element)):
                return True
        return False
    if container is None or isinstance(container, (bool, int, float)):
        ip.raise_(TypeError, 'argument is not iterable')
    raise Unsupported(f'membership in {type(container).__name__}')


def getitem(ip, obj, key):
    obj = ip.unwrap(obj)
    if isinstance(obj, EObj):
        return obj.getitem(ip, key)
    if isinstance(obj, SV):
        if obj.k == 'str':
            return str_item(ip, obj, key)
        return ip.raise_(TypeError, 'object is not subscriptable')
    if id(obj) in ip.opaque_dicts:
        return ip.opaque_dicts[id(obj)].getitem(ip, key)
    if isinstance(key, slice):
        try:
            raw = slice(native(ip.unwrap(key.start)), native(ip.unwrap(key.stop)), native(ip.unwrap(key.step)))
            return run_native(ip, operator.getitem, [obj, raw], {})
        except NotConcrete:
            pass
        if isinstance(obj, str):
            return str_item(ip, SV('str', z3.StringVal(obj)), key)
        raise Unsupported('symbolic slice of a host sequence')
    key = ip.unwrap(key)
    try:
        raw = native(key)
        if isinstance(obj, (list, dict)):
            # A host container (a constant of the program): its parts stay host values
            try:
                return obj[raw]
            except (KeyError, IndexError, TypeError) as exc:
                raise PyExc(ExcObj(type(exc), list(exc.args))) from exc
        if isinstance(obj, tuple):
            return obj[raw]
        return run_native(ip, operator.getitem, [obj, raw], {})
    except NotConcrete:
        pass
    if isinstance(obj, dict):
        for candidate in obj:
            if ip.truth(ip.py_eq(key, candidate)):
                return obj[candidate]
        return ip.raise_(KeyError, key)
    if isinstance(obj, str):
        return str_item(ip, SV('str', z3.StringVal(obj)), key)
    if isinstance(obj, (list, tuple)):
        k = ip.int_of(key)
        for ix, value in enumerate(obj):
            if ip.branch(z3.Or(k == ix, k == ix - len(obj))):
                return value
        return ip.raise_(IndexError, 'index out of range')
    raise Unsupported('symbolic subscript of a host object')


def str_item(ip, text, key):
    n = z3.Length(text.t)
    if isinstance(key, slice):
        lo, hi = slice_bounds(ip, key, n)
        if isinstance(lo, int) and lo == 0 and not isinstance(hi, int) and hi.eq(n):
            return text
        length = z3.simplify(ival(hi) - ival(lo))
        if z3.is_int_value(length) and length.as_long() == 0:
            return ''
        if 'slice' in ip.contracts:
            whole = not isinstance(hi, int) and hi.eq(n)
            if isinstance(lo, int) and (isinstance(hi, int) or whole):
                part = ip.contracts['slice'](ip, text.t, lo, None if whole else hi)
                if part is not None:
                    return SV('str', part)
        return SV('str', z3.SubString(text.t, ival(lo), ival(simp(ival(hi) - lo))))
    if isinstance(ip.unwrap(key), SV) and ip.unwrap(key).k == 'real':
        ip.raise_(TypeError, 'string indices must be integers')
    k = ip.int_of(key)
    if ip.branch(z3.And(ival(k) >= 0, k < n)):
        return SV('str', z3.SubString(text.t, ival(k), z3.IntVal(1)))
    if ip.branch(z3.And(ival(k) < 0, ival(k) >= -n)):
        return SV('str', z3.SubString(text.t, k + n, z3.IntVal(1)))
    return ip.raise_(IndexError, 'string index out of range')


def getattribute(ip, obj, name):
    if isinstance(obj, SV) and obj.k == 'val':
        obj = ip.unwrap(obj)
    if isinstance(obj, EObj):
        return obj.getattr(ip, name)
    if isinstance(obj, SV):
        return value_attribute(ip, obj, name)
    try:
        return getattr(obj, name)
    except AttributeError as exc:
        raise PyExc(ExcObj(AttributeError, list(exc.args))) from exc


DT_FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')


def value_attribute(ip, obj, name):
    if obj.k != 'val':
        host = {'str': str, 'int': int, 'real': float, 'bool': bool}[obj.k]
        if not hasattr(host, name):
            ip.raise_(AttributeError, name)
        return Bound(obj, name)
    kind = ip.kind(obj)
    if kind in ('date', 'dtn', 'dta'):
        host = datetime.date if kind == 'date' else datetime.datetime
        if not hasattr(host, name):
            ip.raise_(AttributeError, name)
        if name in DT_FIELDS:
            return dt_field(ip, obj, kind, name)
        if name == 'tzinfo':
            return None if kind == 'dtn' else Opaque('tzinfo', func('tzinfo', ['val'], 'val')(obj.t))
        return Bound(obj, name)
    if kind == 'rex':
        if name in ('pattern',):
            return SV('str', func('re_pattern', ['val'], 'str')(obj.t))
        return Bound(obj, name)
    if kind == 'fn':
        raise Unsupported(f'attribute {name} of a function value')
    host = {'none': type(None), 'uuid': uuid.UUID}.get(kind)
    if host is not None and not hasattr(host, name):
        ip.raise_(AttributeError, name)
    return Bound(obj, name)


def dt_field(ip, obj, kind, name):
    if ip.contracts.get('dt_field') is not None:
        return ip.contracts['dt_field'](ip, obj, kind, name)
    if kind == 'dtn':
        n = V.n(obj.t)
        micro = n % 1000000
        second = (n / 1000000) % 60
        minute = (n / 60000000) % 60
        hour = (n / 3600000000) % 24
        if name in ('hour', 'minute', 'second', 'microsecond'):
            return SV('int', z3.simplify({'hour': hour, 'minute': minute, 'second': second, 'microsecond': micro}[name]))
        day_number = z3.simplify(n / 86400000000)
        return SV('int', func(f'cal_{name}', ['int'], 'int')(day_number))
    return SV('int', func(f'{kind}_{name}', ['val'], 'int')(obj.t))


def space_of(ip, x):
    x = ip.unwrap(x)
    if isinstance(x, GenExp):
        from pyvc import interp
        c = interp.symbolic_comp(ip, x.frame, x.node, x.spc)
        return Space(c.n, c.at)
    if isinstance(x, EObj):
        return x.space(ip)
    if isinstance(x, (list, tuple, str)):
        return Space(len(x), lambda ip2, k: getitem(ip2, x, SV('int', k) if not isinstance(k, int) else k))
    if isinstance(x, (dict, set, frozenset, range)) or hasattr(x, '__iter__') and not isinstance(x, SV):
        items = list(x)
        return Space(len(items), lambda ip2, k: items[k] if isinstance(k, int) else getitem(ip2, items, SV('int', k)))
    if isinstance(x, SV) and x.k == 'str':
        return Space(z3.Length(x.t), lambda ip2, k: SV('str', z3.SubString(x.t, ival(k), z3.IntVal(1))))
    return ip.raise_(TypeError, 'object is not iterable')


def content_of(ip, x):
    x = ip.unwrap(x)
    if isinstance(x, LazyIter):
        return Lit(list(x.gen))
    if isinstance(x, SList):
        return x.content
    if isinstance(x, SDict):
        return x.keys_content(ip)
    spc = space_of(ip, x)
    if isinstance(spc.n, int):
        return Lit([spc.at(ip, k) for k in range(spc.n)])
    if hasattr(spc, 'content'):
        return spc.content
    return MapC(spc.n, spc.at)


def concrete_items(ip, x):
    """The elements of an iterable with a concrete number of elements"""
    content = content_of(ip, x)
    if not isinstance(content.n, int):
        raise Unsupported('symbolic number of elements')
    return [content.at(ip, k) for k in range(content.n)]


def iterate(ip, x):
    """Concrete iteration"""
    x = ip.unwrap(x)
    if isinstance(x, LazyIter):
        yield from x.gen
        return
    if isinstance(x, SList) and isinstance(x.content, Lit):
        k = 0
        while isinstance(x.content.n, int) and k < x.content.n:
            yield x.content.at(ip, k)
            k += 1
        return
    yield from concrete_items(ip, x)


#
# Built-in and library functions
#


def isinstance_(ip, x, cls):
    if isinstance(cls, tuple):
        return any(isinstance_(ip, x, part) for part in cls) if not isinstance(x, SV) else isinstance_kinds(ip, x, cls)
    if isinstance(x, SV):
        return isinstance_kinds(ip, x, (cls,))
    if isinstance(x, ExcObj):
        return issubclass(x.cls, cls)
    if isinstance(x, Rec):
        return issubclass(x.cls, cls)
    if isinstance(x, EObj):
        if x.py_class is object:
            if isinstance(x, (Closure, Model, Partial, Bound)):
                return cls in (object,)
            if isinstance(x, (LazyIter, SpaceIter, GenExp, Opaque)):
                raise Unsupported(f'isinstance of {type(x).__name__}')
        return issubclass(x.py_class, cls)
    return isinstance(x, cls)


CLASS_KINDS = {
    str: {'str'}, bool: {'bool'}, int: {'int', 'bool'}, float: {'flt'}, datetime.date: {'date', 'dtn', 'dta'}, datetime.datetime: {'dtn', 'dta'},
    list: {'list'}, dict: {'dict'}, re.Pattern: {'rex'}, uuid.UUID: {'uuid'}, tuple: set(), complex: set(), bytes: set(), set: set(), type(None): {'none'},
    type: set(), datetime.timedelta: set()
}


def class_kinds(cls):
    if cls in CLASS_KINDS:
        return CLASS_KINDS[cls]
    if isinstance(cls, type) and issubclass(cls, BaseException):
        return set()
    import numbers  # pylint: disable=import-outside-toplevel
    import collections.abc  # pylint: disable=import-outside-toplevel
    extra = {numbers.Number: {'int', 'flt', 'bool'}, numbers.Real: {'int', 'flt', 'bool'}, numbers.Integral: {'int', 'bool'}, collections.abc.Mapping: {'dict'},
             collections.abc.Sequence: {'list', 'str'}, collections.abc.Callable: {'fn'}}
    if cls in extra:
        return extra[cls]
    raise Unsupported(f'isinstance of {cls}')


def isinstance_kinds(ip, x, classes):
    kinds = set()
    flat = []
    for cls in classes:
        flat.extend(cls if isinstance(cls, tuple) else (cls,))
    for cls in flat:
        kinds |= class_kinds(cls)
    if x.k != 'val':
        return {'bool': 'bool', 'int': 'int', 'real': 'flt', 'str': 'str'}[x.k] in kinds
    return ip.has_kind(x, frozenset(kinds))


def m_isinstance(ip, args, kwargs):
    return isinstance_(ip, args[0], args[1])


def m_callable(ip, args, kwargs):
    x = args[0]
    if isinstance(x, SV):
        return x.k == 'val' and ip.has_kind(x, frozenset(['fn']))
    if isinstance(x, EObj):
        return isinstance(x, (Closure, Model, Partial, Bound))
    return callable(x)


def m_len(ip, args, kwargs):
    x = ip.unwrap(args[0])
    if isinstance(x, EObj):
        return x.length(ip)
    if isinstance(x, SV):
        if x.k == 'str':
            n = simp(z3.Length(x.t))
            return n if isinstance(n, int) else SV('int', n)
        ip.raise_(TypeError, 'object has no len()')
    return run_native(ip, len, [x], {})


def wrap_int(t):
    t = simp(t)
    return t if isinstance(t, int) else SV('int', t)


def minmax(ip, args, kwargs, op, host):
    if 'key' in kwargs or 'default' in kwargs:
        raise Unsupported('min/max with keywords')
    if len(args) == 1:
        items = content_of(ip, args[0])
        if not isinstance(items.n, int):
            contract = ip.contracts.get(host)
            raise Unsupported('min/max of a symbolic sequence')
        items = [items.at(ip, k) for k in range(items.n)]
        if not items:
            ip.raise_(ValueError, 'empty sequence')
    else:
        items = list(args)
    best = items[0]
    for item in items[1:]:
        a, b = num_term(ip.unwrap(item)), num_term(ip.unwrap(best))
        if a is not None and b is not None and a.sort() == b.sort() == z3.IntSort():
            best = wrap_int(z3.If(a < b if op is ast.Lt else a > b, a, b))
        elif ip.truth(order(ip, op, item, best)):
            best = item
    return best


def m_range(ip, args, kwargs):
    vals = []
    for arg in args:
        raw = ip.unwrap(arg)
        if isinstance(raw, float) or isinstance(raw, SV) and raw.k != 'int' and raw.k != 'bool' or raw is None or isinstance(raw, str):
            ip.raise_(TypeError, 'object cannot be interpreted as an integer')
        vals.append(ip.int_of(raw))
    if len(vals) == 1:
        vals = [0, vals[0], 1]
    elif len(vals) == 2:
        vals = vals + [1]
    start, stop, step = vals
    if all(isinstance(val, int) for val in vals):
        return range(start, stop, step)
    if not isinstance(step, int) or step not in (1, -1):
        raise Unsupported('range step')
    n = z3.simplify(z3.If(stop > start, stop - start, 0)) if step == 1 else z3.simplify(z3.If(start > stop, start - stop, 0))
    spc = Space(n, lambda ip2, k: wrap_int(start + k if step == 1 else start - k))
    spc.range = (start, stop, step)
    return SpaceIter(spc)


def lazy(ip, x):
    """Does the iterable have a concrete number of elements?"""
    x = ip.unwrap(x)
    if isinstance(x, LazyIter):
        return True
    if isinstance(x, SList):
        return isinstance(x.content, Lit)
    if isinstance(x, SDict):
        return x.concrete() is not None
    if isinstance(x, (GenExp, SpaceIter)):
        return False
    if isinstance(x, SV):
        return False
    if isinstance(x, EObj):
        return isinstance(space_of(ip, x).n, int)
    return True


def m_enumerate(ip, args, kwargs):
    x = ip.unwrap(args[0])
    start = args[1] if len(args) > 1 else kwargs.get('start', 0)
    if lazy(ip, x):
        def gen():
            k = start
            for item in iterate(ip, x):
                yield (k, item)
                k = binary(ip, ast.Add, k, 1)
        return LazyIter(gen())
    spc = space_of(ip, x)
    return SpaceIter(Space(spc.n, lambda ip2, k: (binary(ip2, ast.Add, wrap_int(ival(k)), start), spc.at(ip2, k))))


def m_zip(ip, args, kwargs):
    if all(lazy(ip, arg) for arg in args):
        iters = [iterate(ip, arg) for arg in args]
        return LazyIter(tuple(items) for items in zip(*iters))
    spaces = [space_of(ip, arg) for arg in args]
    n = spaces[0].n
    for spc in spaces[1:]:
        n = simp(z3.If(ival(spc.n) < ival(n), ival(spc.n), ival(n)))
    return SpaceIter(Space(n, lambda ip2, k: tuple(spc.at(ip2, k) for spc in spaces)))


def m_reversed(ip, args, kwargs):
    x = ip.unwrap(args[0])
    spc = space_of(ip, x)
    if isinstance(spc.n, int):
        return LazyIter(iter([spc.at(ip, k) for k in reversed(range(spc.n))]))
    return SpaceIter(Space(spc.n, lambda ip2, k: spc.at(ip2, simp(spc.n - 1 - k))))


def m_sum(ip, args, kwargs):
    total = args[1] if len(args) > 1 else kwargs.get('start', 0)
    contract = ip.contracts.get('sum')
    if contract is not None:
        result = contract(ip, args, kwargs)
        if result is not NotImplemented:
            return result
    for item in iterate(ip, args[0]):
        total = binary(ip, ast.Add, total, item)
    return total


def m_any(ip, args, kwargs):
    for item in iterate(ip, args[0]):
        if ip.truth(item):
            return True
    return False


def m_all(ip, args, kwargs):
    for item in iterate(ip, args[0]):
        if not ip.truth(item):
            return False
    return True


def m_iter(ip, args, kwargs):
    x = ip.unwrap(args[0])
    if isinstance(x, LazyIter):
        return x
    if lazy(ip, x):
        return LazyIter(iterate(ip, x))
    return SpaceIter(space_of(ip, x))


def m_next(ip, args, kwargs):
    x = args[0]
    contract = ip.contracts.get('next')
    if contract is not None and isinstance(x, (GenExp, SpaceIter)):
        result = contract(ip, args, kwargs)
        if result is not NotImplemented:
            return result
    if isinstance(x, LazyIter):
        for item in x.gen:
            return item
        if len(args) > 1:
            return args[1]
        ip.raise_(StopIteration)
    if isinstance(x, SpaceIter):
        n = x.spc.n
        if ip.branch(n > 0):
            return x.spc.at(ip, 0)
        if len(args) > 1:
            return args[1]
        ip.raise_(StopIteration)
    if isinstance(x, GenExp) and len(x.node.generators) == 1:
        from pyvc import interp
        spc = space_of(ip, x.spc)
        generator = x.node.generators[0]

        def enter(sub, k):
            inner = interp.comp_frame(x.frame, x.node)
            interp.assign(sub, inner, generator.target, spc.at(sub, k))
            return inner

        def pred(sub, k):
            inner = enter(sub, k)
            return all(sub.truth(interp.ev(sub, inner, cond)) for cond in generator.ifs)

        k = ip.first_match(spc.n, pred)
        if k is not None:
            inner = enter(ip, k)
            if not pred(ip, k):
                raise PathEnd()
            return interp.ev(ip, inner, x.node.elt)
        if len(args) > 1:
            return args[1]
        ip.raise_(StopIteration)
    raise Unsupported('next of a symbolic generator')


def trunc_real(t):
    exact = as_int(t)
    if exact is not None:
        return exact
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


def uf_partial(ip, name, sorts, ret, terms, exceptions):
    """An uninterpreted host function that may raise: the exception is a function of the arguments too"""
    if exceptions:
        raises = func(f'raises:{name}', sorts, 'int')(*terms)
        pick = ip.choose([z3.And(raises != ix + 1 if len(exceptions) == 1 else z3.And(*[raises != jx + 1 for jx in range(len(exceptions))]))
                          if ix == 0 else raises == ix for ix in range(len(exceptions) + 1)]
                         if False else [z3.And(*[raises != jx + 1 for jx in range(len(exceptions))])] + [raises == jx + 1 for jx in range(len(exceptions))])
        if pick > 0:
            ip.raise_(exceptions[pick - 1], name)
    return func(name, sorts, ret)(*terms)


def m_int(ip, args, kwargs):
    x = ip.unwrap(args[0]) if args else 0
    if not isinstance(x, (SV, EObj)) and not any(isinstance(ip.unwrap(arg), (SV, EObj)) for arg in args[1:]):
        return run_native(ip, int, [x] + [ip.unwrap(arg) for arg in args[1:]], kwargs)
    if len(args) == 1 and not kwargs:
        if isinstance(x, SV):
            if x.k == 'int':
                return x
            if x.k == 'bool':
                return wrap_int(z3.If(x.t, 1, 0))
            if x.k == 'real':
                return wrap_int(trunc_real(x.t))
            if x.k == 'str':
                t = uf_partial(ip, 'int_of_str', ['str'], 'int', [x.t], [ValueError])
                return SV('int', t)
            ip.raise_(TypeError, 'int() argument')
        ip.raise_(TypeError, 'int() argument')
    base = ip.unwrap(args[1] if len(args) > 1 else kwargs['base'])
    text = str_term(x)
    if text is None:
        ip.raise_(TypeError, "int() can't convert non-string with explicit base")
    if isinstance(base, float) or isinstance(base, SV) and base.k != 'int':
        ip.raise_(TypeError, 'object cannot be interpreted as an integer')
    t = uf_partial(ip, 'int_of_str_base', ['str', 'int'], 'int', [text, ival(ip.int_of(base))], [ValueError])
    return SV('int', t)


def m_float(ip, args, kwargs):
    x = ip.unwrap(args[0]) if args else 0.0
    if not isinstance(x, (SV, EObj)):
        return run_native(ip, float, [x], {})
    t = num_term(x)
    if t is not None:
        return SV('real', to_real(t))
    if isinstance(x, SV) and x.k == 'str':
        outcome = func('float_of_str_outcome', ['str'], 'int')(x.t)
        pick = ip.choose([outcome == 0, outcome == 1, z3.And(outcome != 0, outcome != 1)])
        if pick == 0:
            return SV('real', func('float_of_str', ['str'], 'real')(x.t))
        if pick == 1:
            ip.raise_(ValueError, 'could not convert string to float')
        return NonFinite(outcome == 2, x.t)
    return ip.raise_(TypeError, 'float() argument')


class NonFinite(EObj):
    """nan or an infinity"""

    py_class = float

    def __init__(self, is_nan, text):
        self.is_nan = is_nan
        self.text = text


def m_isnan(ip, args, kwargs):
    x = ip.unwrap(args[0])
    if isinstance(x, NonFinite):
        return mk_bool(x.is_nan)
    if num_term(x) is None:
        ip.raise_(TypeError, 'must be real number')
    return False if isinstance(x, SV) else math.isnan(x)


def m_isinf(ip, args, kwargs):
    x = ip.unwrap(args[0])
    if isinstance(x, NonFinite):
        return mk_bool(z3.Not(x.is_nan))
    if num_term(x) is None:
        ip.raise_(TypeError, 'must be real number')
    return False if isinstance(x, SV) else math.isinf(x)


def m_isfinite(ip, args, kwargs):
    x = ip.unwrap(args[0])
    if isinstance(x, NonFinite):
        return False
    if num_term(x) is None:
        ip.raise_(TypeError, 'must be real number')
    return True if isinstance(x, SV) else math.isfinite(x)


def m_str(ip, args, kwargs):
    if not args:
        return ''
    x = ip.unwrap(args[0])
    return to_text(ip, x)


def to_text(ip, x):
    if isinstance(x, str) or isinstance(x, SV) and x.k == 'str':
        return x
    if isinstance(x, SV):
        if x.k == 'int':
            return SV('str', func('text_of_int', ['int'], 'str')(x.t))
        if x.k == 'real':
            return SV('str', func('text_of_float', ['real'], 'str')(x.t))
        if x.k == 'bool':
            return 'True' if ip.branch(x.t) else 'False'
        return SV('str', func('text_of', ['val'], 'str')(x.t))
    if isinstance(x, ExcObj):
        if len(x.args) == 1:
            return to_text(ip, ip.unwrap(x.args[0]))
        if not x.args and 'text' in x.attrs:
            return x.attrs['text']
        raise Unsupported('text of an exception')
    if isinstance(x, EObj) and hasattr(x, 'str_of'):
        return x.str_of(ip)
    try:
        return run_native(ip, str, [native(x)], {})
    except NotConcrete:
        pass
    return SV('str', func('text_of', ['val'], 'str')(ip.to_v(x)))


def format_value(ip, value, conversion, spec):
    value = ip.unwrap(value)
    if conversion == -1 and spec == '':
        return to_text(ip, value)
    try:
        raw = native(value)
        rawspec = native(ip.unwrap(spec))
        if conversion == ord('r'):
            raw = repr(raw)
        elif conversion == ord('s'):
            raw = str(raw)
        return run_native(ip, format, [raw, rawspec], {})
    except NotConcrete:
        pass
    if 'format' in ip.contracts and conversion == -1:
        result = ip.contracts['format'](ip, value, ip.unwrap(spec))
        if result is not NotImplemented:
            return result
    return SV('str', func('format', ['val', 'str', 'int'], 'str')(ip.to_v(value), str_term(ip.unwrap(spec)), z3.IntVal(conversion)))


def m_bool(ip, args, kwargs):
    return ip.truth(args[0]) if args else False


def m_abs(ip, args, kwargs):
    x = ip.unwrap(args[0])
    t = num_term(x)
    if t is None:
        ip.raise_(TypeError, 'bad operand type for abs()')
    if not isinstance(x, SV):
        return abs(x)
    t = z3.simplify(z3.If(t >= 0, t, -t))
    return SV('int' if t.sort() == z3.IntSort() else 'real', t)


def m_list(ip, args, kwargs):
    if not args:
        return SList(ip, Lit([]))
    return SList(ip, content_of(ip, args[0]))


def m_tuple(ip, args, kwargs):
    return tuple(concrete_items(ip, args[0])) if args else ()


def m_dict(ip, args, kwargs):
    result = SDict(ip)
    if args:
        source = ip.unwrap(args[0])
        if isinstance(source, SDict):
            result = source.clone(ip)
        elif isinstance(source, EObj) and hasattr(source, 'dict_copy'):
            result = source.dict_copy(ip)
        else:
            call_method(ip, result, 'update', [source], {})
    for key, value in kwargs.items():
        result.setitem(ip, key, value)
    return result


def m_set(ip, args, kwargs):
    items = concrete_items(ip, args[0]) if args else []
    return SymSet(items)


def m_type(ip, args, kwargs):
    x = args[0]
    if isinstance(x, SV):
        kind = value_kind(ip, ip.unwrap(x))
        classes = {'none': type(None), 'bool': bool, 'int': int, 'flt': float, 'str': str, 'list': list, 'dict': dict, 'rex': re.Pattern,
                   'date': datetime.date, 'dtn': datetime.datetime, 'dta': datetime.datetime, 'uuid': uuid.UUID}
        if kind in classes:
            return classes[kind]
        raise Unsupported('type of a function value')
    if isinstance(x, (SList, SDict)):
        return x.py_class
    if isinstance(x, EObj):
        raise Unsupported('type of an engine object')
    return type(x)


def m_partial(ip, args, kwargs):
    return Partial(args[0], args[1:], kwargs)


class CmpKey(EObj):
    """The key function functools.cmp_to_key(fn)"""

    def __init__(self, fn):
        self.fn = fn


def m_cmp_to_key(ip, args, kwargs):
    return CmpKey(args[0])


def m_sorted(ip, args, kwargs):
    contract = ip.contracts.get('sorted')
    if contract is not None:
        result = contract(ip, args, kwargs)
        if result is not NotImplemented:
            return result
    x = ip.unwrap(args[0])
    if not kwargs:
        if isinstance(x, SDict) and x.concrete() is None:
            return SList(ip, sorted_keys(ip, x))
        if isinstance(x, DictView) and x.what in ('items', 'keys') and x.obj.concrete() is None:
            keys = sorted_keys(ip, x.obj)
            if x.what == 'keys':
                return SList(ip, keys)
            obj = x.obj
            return SList(ip, MapC(keys.n, lambda ip2, k: (keys.at(ip2, k), obj_get(ip2, obj, keys.at(ip2, k)))))
    content = content_of(ip, x)
    if isinstance(content.n, int):
        items = [content.at(ip, k) for k in range(content.n)]
        if len(items) <= 1:
            return SList(ip, Lit(items))
        try:
            raws = [native(ip.unwrap(item)) for item in items]
        except NotConcrete:
            raws = None
        if raws is not None and not kwargs:
            return run_native(ip, sorted, [raws], {})
        if raws is None and not kwargs:
            # Insertion sort by the host order (stable)
            out = []
            for item in items:
                pos = len(out)
                while pos > 0 and ip.truth(order(ip, ast.Lt, item, out[pos - 1])):
                    pos -= 1
                out.insert(pos, item)
            return SList(ip, Lit(out))
    raise Unsupported('sorted of a symbolic sequence')


def sorted_keys(ip, dct):
    t = func('sorted_keys', ['dcontent'], 'content')(dct.term(ip))
    from pyvc.engine import DHAS
    base = dct.base
    content = Base(ip, t, frozenset(['str']), None if dct.writes or base is None else lambda key: DHAS(base, key))
    n = dct.length(ip)
    ip.assume(content.n == ival(n if isinstance(n, int) else n.t))
    return content


def obj_get(ip, obj, key):
    """The value of a key that is known to be present"""
    if not obj.writes and obj.base is not None:
        kt = ip.to_v(key)
        from pyvc.engine import DGET, DHAS
        ip.assume(DHAS(obj.base, kt))
    return obj.getitem(ip, key)


class DictView(EObj):
    def __init__(self, obj, what):
        self.obj = obj
        self.what = what

    def space(self, ip):
        items = self.obj.concrete() if isinstance(self.obj, SDict) else None
        if items is not None:
            elements = list(getattr(items, self.what)())
            return Space(len(elements), lambda ip2, k: elements[k])
        keys = self.obj.keys_content(ip)
        obj = self.obj
        if self.what == 'keys':
            return Space(keys.n, keys.at)
        if self.what == 'values':
            return Space(keys.n, lambda ip2, k: obj_get(ip2, obj, keys.at(ip2, k)))
        return Space(keys.n, lambda ip2, k: (keys.at(ip2, k), obj_get(ip2, obj, keys.at(ip2, k))))

    def contains(self, ip, item):
        if self.what == 'keys':
            return self.obj.contains(ip, item)
        raise Unsupported('membership in a dict view')

    def length(self, ip):
        return self.obj.length(ip)

    def truth(self, ip):
        return self.obj.truth(ip)


def m_ord(ip, args, kwargs):
    x = ip.unwrap(args[0])
    t = str_term(x)
    if t is None:
        ip.raise_(TypeError, 'ord() expected string')
    if isinstance(x, str):
        return run_native(ip, ord, [x], {})
    if not ip.branch(z3.Length(t) == 1):
        ip.raise_(TypeError, 'ord() expected a character')
    return SV('int', z3.StrToCode(t))


def m_chr(ip, args, kwargs):
    x = ip.unwrap(args[0])
    if isinstance(x, int):
        return run_native(ip, chr, [x], {})
    if isinstance(x, SV) and x.k in ('int', 'bool'):
        t = ival(ip.int_of(x))
        if ip.branch(z3.And(t >= 0, t <= 0x10ffff)):
            return SV('str', z3.StrFromCode(t))
        ip.raise_(ValueError, 'chr() arg not in range(0x110000)')
    return ip.raise_(TypeError, 'an integer is required')


def real_fn(name, exceptions=(ValueError, OverflowError), ret='real'):
    def model(ip, args, kwargs):
        terms = []
        for arg in args:
            t = num_term(ip.unwrap(arg))
            if t is None:
                ip.raise_(TypeError, 'must be real number')
            terms.append(to_real(t))
        return SV(ret, uf_partial(ip, name, ['real'] * len(terms), ret, terms, list(exceptions)))
    return model


def m_floor(ip, args, kwargs):
    t = num_term(ip.unwrap(args[0]))
    if t is None:
        ip.raise_(TypeError, 'must be real number')
    return wrap_int(t if t.sort() == z3.IntSort() else z3.ToInt(t))


def m_ceil(ip, args, kwargs):
    t = num_term(ip.unwrap(args[0]))
    if t is None:
        ip.raise_(TypeError, 'must be real number')
    return wrap_int(t if t.sort() == z3.IntSort() else -z3.ToInt(-t))


def m_trunc(ip, args, kwargs):
    t = num_term(ip.unwrap(args[0]))
    if t is None:
        ip.raise_(TypeError, 'must be real number')
    return wrap_int(t if t.sort() == z3.IntSort() else trunc_real(t))


def m_timedelta(ip, args, kwargs):
    units = {'days': 86400000000, 'hours': 3600000000, 'minutes': 60000000, 'seconds': 1000000, 'milliseconds': 1000, 'microseconds': 1, 'weeks': 604800000000}
    names = ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks')
    fields = dict(zip(names, args))
    fields.update(kwargs)
    total = z3.IntVal(0)
    for name, x in fields.items():
        x = ip.unwrap(x)
        t = num_term(x)
        if t is None:
            ip.raise_(TypeError, 'unsupported type for timedelta component')
        if t.sort() == z3.IntSort():
            total = total + t * units[name]
        else:
            # Rounded to microseconds, half to even - exact for integral components
            r = func(f'timedelta_{name}', ['real'], 'int')(t)
            ip.assume(z3.Implies(z3.IsInt(t), r == z3.ToInt(t) * units[name]))
            total = total + r
    limit = 86400000000 * 1000000000
    if not ip.branch(z3.And(total > -limit, total < limit)):
        ip.raise_(OverflowError, 'days out of range')
    return TimeDelta(z3.simplify(total))


def m_datetime(ip, args, kwargs):
    contract = ip.contracts.get('datetime')
    if contract is not None:
        return contract(ip, args, kwargs)
    if kwargs or len(args) > 7:
        raise Unsupported('datetime keyword arguments')
    terms = []
    for arg in args:
        x = ip.unwrap(arg)
        t = num_term(x)
        if t is None or t.sort() != z3.IntSort():
            ip.raise_(TypeError, 'an integer is required')
        terms.append(t)
    while len(terms) < 7:
        terms.append(z3.IntVal(0))
    t = uf_partial(ip, 'datetime', ['int'] * 7, 'int', terms, [ValueError])
    ip.assume(z3.And(t >= 0, t <= MICROS_MAX, t % 1000000 == terms[6]))
    return SV('val', V.dtn(t))


def m_monthrange(ip, args, kwargs):
    year, month = (ival(ip.int_of(arg)) for arg in args)
    if not ip.branch(z3.And(month >= 1, month <= 12)):
        ip.raise_(calendar.IllegalMonthError, 'month')
    leap = z3.And(year % 4 == 0, z3.Or(year % 100 != 0, year % 400 == 0))
    days = z3.If(z3.Or(month == 4, month == 6, month == 9, month == 11), 30, z3.If(month == 2, z3.If(leap, 29, 28), 31))
    weekday = func('weekday_of_first', ['int', 'int'], 'int')(year, month)
    return (SV('int', weekday), SV('int', z3.simplify(days)))


def m_loads(ip, args, kwargs):
    x = ip.unwrap(args[0])
    t = str_term(x)
    if t is None:
        ip.raise_(TypeError, 'the JSON object must be str')
    r = uf_partial(ip, 'json_loads', ['str'], 'val', [t], [json.JSONDecodeError])
    return SV('val', r)


def str_fn(name, sorts, ret, exceptions=()):
    def model(ip, args, kwargs):
        if kwargs:
            items = sorted(kwargs.items())
            tag = name + ':' + ','.join(f'{key}={value!r}' for key, value in items)
        else:
            tag = name
        terms = []
        for arg in args:
            terms.append(ip.to_v(arg))
        return SV(ret, uf_partial(ip, tag, ['val'] * len(terms), ret, terms, list(exceptions)))
    return model


def m_map(ip, args, kwargs):
    fn, x = args[0], ip.unwrap(args[1])
    if len(args) == 2 and lazy(ip, x):
        return LazyIter(ip.call(fn, [item], {}) for item in iterate(ip, x))
    if len(args) == 2:
        spc = space_of(ip, x)
        if not isinstance(spc.n, int) and ip.branch(simp(spc.n > 0)):
            k = ip.fresh('int', 'k')
            ip.assume(z3.And(k.t >= 0, k.t < spc.n))
            ip.call(fn, [spc.at(ip, k.t)], {})
        return SpaceIter(Space(spc.n, lambda ip2, k: ip2.call(fn, [spc.at(ip2, k)], {})))
    raise Unsupported('map')


def m_filter(ip, args, kwargs):
    fn, x = args[0], ip.unwrap(args[1])
    if lazy(ip, x):
        return LazyIter(item for item in iterate(ip, x) if (ip.truth(item) if fn is None else ip.truth(ip.call(fn, [item], {}))))
    raise Unsupported('filter')


def m_getattr(ip, args, kwargs):
    name = native(args[1])
    try:
        return getattribute(ip, args[0], name)
    except PyExc as exc:
        if len(args) > 2 and issubclass(exc.obj.cls, AttributeError):
            return args[2]
        raise


def m_hasattr(ip, args, kwargs):
    try:
        getattribute(ip, args[0], native(args[1]))
        return True
    except PyExc as exc:
        if issubclass(exc.obj.cls, AttributeError):
            return False
        raise


def m_repr(ip, args, kwargs):
    return SV('str', func('repr', ['val'], 'str')(ip.to_v(ip.unwrap(args[0]))))


def m_round(ip, args, kwargs):
    x = num_term(ip.unwrap(args[0]))
    if x is None:
        ip.raise_(TypeError, 'round')
    if len(args) == 1:
        if x.sort() == z3.IntSort():
            return wrap_int(x)
        return SV('int', func('round_even', ['real'], 'int')(x))
    return SV('real', func('round_digits', ['real', 'int'], 'real')(to_real(x), ival(ip.int_of(args[1]))))


def m_operator(op):
    return lambda ip, args, kwargs: binary(ip, op, args[0], args[1])


def m_operator_cmp(op):
    return lambda ip, args, kwargs: compare(ip, op, args[0], args[1])


def m_divmod(ip, args, kwargs):
    return (binary(ip, ast.FloorDiv, args[0], args[1]), binary(ip, ast.Mod, args[0], args[1]))


def m_quote(ip, args, kwargs):
    x = ip.unwrap(args[0])
    t = str_term(x)
    if t is None:
        raise Unsupported('quote of a non-string')
    safe = native(kwargs.get('safe', args[1] if len(args) > 1 else '/'))
    return SV('str', uf_partial(ip, f'quote:{safe}', ['str'], 'str', [t], [UnicodeEncodeError]))


def m_random(ip, args, kwargs):
    raise Unsupported('random')


def m_re_compile(ip, args, kwargs):
    t = str_term(ip.unwrap(args[0]))
    flags = args[1] if len(args) > 1 else kwargs.get('flags', 0)
    flags = ip.unwrap(flags)
    ft = num_term(int(flags) if not isinstance(flags, SV) else flags)
    x = uf_partial(ip, 're_compile', ['str', 'int'], 'int', [t, ft], [re.error])
    return SV('val', V.rex(x))


MODELS = {
    isinstance: m_isinstance, callable: m_callable, len: m_len, range: m_range, enumerate: m_enumerate, zip: m_zip, reversed: m_reversed, sum: m_sum,
    any: m_any, all: m_all, iter: m_iter, next: m_next, int: m_int, float: m_float, str: m_str, bool: m_bool, abs: m_abs, list: m_list, tuple: m_tuple,
    dict: m_dict, set: m_set, frozenset: m_set, type: m_type, sorted: m_sorted, ord: m_ord, chr: m_chr, map: m_map, filter: m_filter, getattr: m_getattr,
    hasattr: m_hasattr, repr: m_repr, round: m_round, divmod: m_divmod,
    min: lambda ip, args, kwargs: minmax(ip, args, kwargs, ast.Lt, min), max: lambda ip, args, kwargs: minmax(ip, args, kwargs, ast.Gt, max),
    functools.partial: m_partial, functools.cmp_to_key: m_cmp_to_key,
    math.isnan: m_isnan, math.isinf: m_isinf, math.isfinite: m_isfinite, math.floor: m_floor, math.ceil: m_ceil, math.trunc: m_trunc,
    math.fabs: lambda ip, args, kwargs: m_float(ip, [m_abs(ip, args, {})], {}),
    math.sqrt: real_fn('sqrt', (ValueError,)), math.sin: real_fn('sin', ()), math.cos: real_fn('cos', ()), math.tan: real_fn('tan', ()),
    math.asin: real_fn('asin', (ValueError,)), math.acos: real_fn('acos', (ValueError,)), math.atan: real_fn('atan', ()), math.atan2: real_fn('atan2', ()),
    math.log: real_fn('log', (ValueError, ZeroDivisionError)), math.log10: real_fn('log10', (ValueError,)), math.exp: real_fn('exp', (OverflowError,)),
    math.pow: real_fn('mpow', (ValueError, OverflowError)),
    datetime.timedelta: m_timedelta, datetime.datetime: m_datetime, calendar.monthrange: m_monthrange, json.loads: m_loads,
    urllib.parse.quote: m_quote, re.compile: m_re_compile, re.escape: str_fn('re_escape', ['str'], 'str'),
    operator.add: m_operator(ast.Add), operator.sub: m_operator(ast.Sub), operator.mul: m_operator(ast.Mult), operator.truediv: m_operator(ast.Div),
    operator.mod: m_operator(ast.Mod), operator.eq: m_operator_cmp(ast.Eq), operator.ne: m_operator_cmp(ast.NotEq), operator.lt: m_operator_cmp(ast.Lt),
    operator.le: m_operator_cmp(ast.LtE), operator.gt: m_operator_cmp(ast.Gt), operator.ge: m_operator_cmp(ast.GtE)
}



def re_function(name):
    def model(ip, args, kwargs):
        pattern = ip.unwrap(args[0])
        if kwargs or not isinstance(pattern, (str, re.Pattern)) or len(args) != (3 if name == 'sub' else 2):
            raise Unsupported(f're.{name}')
        return pattern_method(ip, re.compile(pattern), name, list(args[1:]), {})
    return model


MODELS.update({getattr(re, _name): re_function(_name) for _name in ('match', 'search', 'fullmatch', 'sub', 'split', 'findall', 'finditer')})

# Host functions that depend on more than their arguments, or have effects: never executed on concrete arguments
IMPURE = ('random', 'now', 'today', 'open', 'print', 'input', 'exec', 'eval', 'system', 'urlopen', 'localtime', 'astimezone', 'time')


def call_native(ip, fn, args, kwargs):
    try:
        model = MODELS.get(fn)
    except TypeError:
        model = None
    owner = getattr(fn, '__self__', None)
    name = getattr(fn, '__name__', '')
    if model is not None:
        try:
            if fn in (isinstance, functools.partial, functools.cmp_to_key, type, iter, next, enumerate, zip, reversed, map, filter, list, dict, set, sorted, tuple,
                      callable, getattr, hasattr, range):
                return model(ip, args, kwargs)
            raws = [native(ip.unwrap(arg)) for arg in args]
            rawkw = {key: native(ip.unwrap(value)) for key, value in kwargs.items()}
        except NotConcrete:
            return model(ip, args, kwargs)
        return run_native(ip, fn, raws, rawkw)
    if owner is not None and not isinstance(owner, type(builtins)) and not isinstance(owner, type):
        return call_method(ip, owner, name, args, kwargs, fn)
    if name in IMPURE:
        contract = ip.contracts.get(name)
        if contract is not None:
            return contract(ip, args, kwargs)
        raise Unsupported(f'host function {name}')
    try:
        raws = [native(ip.unwrap(arg)) for arg in args]
        rawkw = {key: native(ip.unwrap(value)) for key, value in kwargs.items()}
    except NotConcrete as exc:
        raise Unsupported(f'host function {getattr(fn, "__module__", "")}.{name} of symbolic arguments') from exc
    return run_native(ip, fn, raws, rawkw)


#
# Methods
#

STR_RET = {'lower': 'str', 'upper': 'str', 'strip': 'str', 'lstrip': 'str', 'rstrip': 'str', 'replace': 'str', 'capitalize': 'str', 'title': 'str',
           'isdigit': 'bool', 'isalpha': 'bool', 'isspace': 'bool', 'isnumeric': 'bool', 'zfill': 'str', 'ljust': 'str', 'rjust': 'str', 'count': 'int',
           'isalnum': 'bool', 'casefold': 'str', 'swapcase': 'str', 'removeprefix': 'str', 'removesuffix': 'str', 'isascii': 'bool', 'isdecimal': 'bool'}


def call_method(ip, obj, name, args, kwargs, fn=None):
    if isinstance(obj, SList):
        return list_method(ip, obj, name, args, kwargs)
    if isinstance(obj, SDict):
        return dict_method(ip, obj, name, args, kwargs)
    if isinstance(obj, Match):
        return match_method(ip, obj, name, args)
    if isinstance(obj, TimeDelta):
        if name == 'total_seconds':
            return float_op(ip, 'fdiv', z3.ToReal(obj.t), z3.RealVal(1000000))
        raise Unsupported(f'timedelta.{name}')
    if isinstance(obj, SymSet):
        if name == 'add':
            if not obj.contains(ip, args[0]):
                obj.items.append(args[0])
            return None
        raise Unsupported(f'set.{name}')
    if isinstance(obj, SV) and obj.k == 'str':
        return str_method(ip, obj, name, args, kwargs)
    if isinstance(obj, SV) and obj.k == 'real' and name == 'is_integer':
        return mk_bool(z3.IsInt(obj.t))
    if isinstance(obj, SV) and obj.k in ('int', 'bool') and name == 'is_integer':
        return True
    if isinstance(obj, SV) and obj.k == 'val':
        return value_method(ip, obj, name, args, kwargs)
    if isinstance(obj, EObj) and type(obj).getattr is not EObj.getattr:
        return ip.call(obj.getattr(ip, name), args, kwargs)
    if isinstance(obj, (SV, EObj)):
        raise Unsupported(f'method {name} of {describe(obj)}')
    # A host object
    for cls in type(obj).__mro__:
        if ip.contracts.get((cls, name)) is not None:
            return ip.contracts[(cls, name)](ip, obj, args, kwargs)
    if isinstance(obj, set):
        raise Unsupported('mutation of a host set') if name in ('add', 'update', 'remove', 'discard', 'clear', 'pop') else None
    if isinstance(obj, (dict, list)):
        if name in ('append', 'extend', 'insert', 'pop', 'clear', 'update', 'setdefault', 'remove', 'sort', 'reverse', 'popitem'):
            raise Unsupported('mutation of a host container')
        if id(obj) in ip.opaque_dicts:
            return call_method(ip, ip.opaque_dicts[id(obj)], name, args, kwargs)
        if isinstance(obj, dict) and name == 'get':
            return getitem(ip, obj, args[0]) if ip.truth(contains(ip, args[0], obj)) else (args[1] if len(args) > 1 else None)
        if isinstance(obj, dict) and name in ('items', 'keys', 'values'):
            return list(getattr(obj, name)())
    try:
        raws = [native(ip.unwrap(arg)) for arg in args]
        rawkw = {key: native(ip.unwrap(value)) for key, value in kwargs.items()}
        if name in IMPURE:
            raise Unsupported(f'host method {name}')
        return run_native(ip, fn if fn is not None else getattr(obj, name), raws, rawkw)
    except NotConcrete:
        pass
    if isinstance(obj, str):
        if name == 'join':
            return str_join(ip, obj, args[0])
        return str_method(ip, SV('str', z3.StringVal(obj)), name, args, kwargs)
    if isinstance(obj, re.Pattern):
        return pattern_method(ip, obj, name, args, kwargs)
    raise Unsupported(f'method {name} of a host {type(obj).__name__} with symbolic arguments')


def pattern_method(ip, pattern, name, args, kwargs):
    contract = getattr(ip, 'pattern_contract', None)
    if contract is not None:
        result = contract(ip, pattern, name, args, kwargs)
        if result is not NotImplemented:
            return result
    tag = f'{pattern.pattern}:{pattern.flags}'
    if name in ('match', 'search', 'fullmatch'):
        t = str_term(ip.unwrap(args[0]))
        if t is None:
            ip.raise_(TypeError, 'expected string')
        if len(args) > 1 or kwargs:
            raise Unsupported('pattern.match with a position')
        if ip.branch(func(f'{name}:{tag}', ['str'], 'bool')(t)):
            return Match(pattern, name, t)
        return None
    if name == 'sub':
        repl, text = ip.unwrap(args[0]), ip.unwrap(args[1])
        if not isinstance(repl, str):
            raise Unsupported('pattern.sub with a function or symbolic replacement')
        t = str_term(text)
        if t is None:
            ip.raise_(TypeError, 'expected string')
        return SV('str', func(f'sub:{tag}:{repl}', ['str'], 'str')(t))
    if name == 'split':
        t = str_term(ip.unwrap(args[0]))
        if t is None or len(args) > 1:
            raise Unsupported('pattern.split')
        content = Base(ip, func(f'split:{tag}', ['str'], 'content')(t), frozenset(['str']))
        return SList(ip, content)
    raise Unsupported(f'pattern.{name}')


def match_method(ip, obj, name, args):
    if name in ('start', 'end', 'span') and hasattr(obj, 'span_of'):
        return ip.call(obj.getattr(ip, name), args, {})
    if name == 'group':
        groups = [obj.group(ip, native(ip.unwrap(arg))) for arg in (args or [0])]
        return groups[0] if len(groups) == 1 else tuple(groups)
    if name in ('end', 'start'):
        ix = native(args[0]) if args else 0
        if isinstance(ix, str):
            if ix not in obj.pattern.groupindex:
                ip.raise_(IndexError, 'no such group')
            ix = obj.pattern.groupindex[ix]
        if obj.group(ip, ix) is None:
            return -1
        obj.place(ip, ix)
        start, length = obj.span(ix)
        return SV('int', start if name == 'start' else start + length)
    if name == 'span':
        return (match_method(ip, obj, 'start', args), match_method(ip, obj, 'end', args))
    if name == 'groupdict':
        result = SDict(ip)
        for group in obj.pattern.groupindex:
            result.setitem(ip, group, obj.group(ip, group))
        return result
    raise Unsupported(f'match.{name}')


def str_join(ip, sep, iterable):
    content = content_of(ip, iterable)
    if isinstance(content.n, int):
        result = ''
        for k in range(content.n):
            item = ip.unwrap(content.at(ip, k))
            if str_term(item) is None:
                ip.raise_(TypeError, 'sequence item: expected str instance')
            if k > 0:
                result = binary(ip, ast.Add, result, sep)
            result = binary(ip, ast.Add, result, item)
        return result
    return SV('str', func('str_join', ['str', 'content'], 'str')(str_term(sep), seq_term(ip, content)))


def seq_term(ip, content):
    """The sequence as a term; equal (extensionally) sequences met before on this path share it"""
    try:
        return content.term(ip)
    except Unsupported:
        pass
    memo = ip.__dict__.setdefault('seq_terms', [])
    for other, t in memo:
        if equal_content(ip, other, content):
            return t
    ip.fresh_count += 1
    t = z3.Const(f'seq!{ip.fresh_count}', Content)
    ip.assume(CLEN(t) == ival(content.n))
    memo.append((content, t))
    return t


def equal_content(ip, a, b):
    """Is equality of two sequences implied by the path condition? (extensionality, on a generic index)"""
    if not same_len(ip, a, b):
        return False
    k = ip.fresh('int', 'kx')
    lo = z3.And(k.t >= 0, k.t < ival(a.n))
    ip.solver.push()
    saved = (list(ip.pc), dict(ip.kinds))
    try:
        ip.assume(lo)
        try:
            va, vb = ip.to_v(a.at(ip, k.t)), ip.to_v(b.at(ip, k.t))
        except (Unsupported, PyExc):
            return False
        return ip.check(va != vb) == z3.unsat
    finally:
        ip.solver.pop()
        ip.pc, ip.kinds = saved


def same_len(ip, a, b):
    if isinstance(a.n, int) and isinstance(b.n, int):
        return a.n == b.n
    return ip.check(ival(a.n) != ival(b.n)) == z3.unsat


def str_method(ip, obj, name, args, kwargs):
    args = [ip.unwrap(arg) for arg in args]
    if not hasattr(str, name):
        ip.raise_(AttributeError, name)
    if name == 'join':
        return str_join(ip, obj, args[0])
    if name in ('find', 'rfind', 'index', 'rindex'):
        sub = str_term(args[0])
        if sub is None:
            ip.raise_(TypeError, 'must be str')
        terms = [obj.t, sub]
        sorts = ['str', 'str']
        for arg in args[1:]:
            if isinstance(arg, SV) and arg.k == 'real' or isinstance(arg, float):
                ip.raise_(TypeError, 'slice indices must be integers')
            terms.append(ival(ip.int_of(arg)))
            sorts.append('int')
        base = 'find' if name in ('find', 'index') else 'rfind'
        n = func(f'str_{base}', sorts, 'int')(*terms)
        if base == 'find' and len(terms) == 2:
            n = z3.IndexOf(obj.t, sub, z3.IntVal(0))
        elif base == 'rfind' and len(terms) == 2:
            n = z3.LastIndexOf(obj.t, sub)
        elif base == 'find' and len(terms) == 3 and ip.branch(terms[2] >= 0):
            n = z3.IndexOf(obj.t, sub, terms[2])
        else:
            ip.assume(z3.And(n >= -1, n <= z3.Length(obj.t)))
        if name in ('index', 'rindex'):
            if ip.branch(n == -1):
                ip.raise_(ValueError, 'substring not found')
        return SV('int', n)
    if name in ('startswith', 'endswith'):
        sub = str_term(args[0])
        if sub is None:
            if isinstance(args[0], tuple):
                raise Unsupported('startswith of a tuple')
            ip.raise_(TypeError, 'first arg must be str')
        if len(args) == 1:
            return mk_bool(z3.PrefixOf(sub, obj.t) if name == 'startswith' else z3.SuffixOf(sub, obj.t))
        terms = [obj.t, sub] + [ival(ip.int_of(arg)) for arg in args[1:]]
        return SV('bool', func(f'str_{name}', ['str', 'str'] + ['int'] * (len(args) - 1), 'bool')(*terms))
    if name == 'split':
        if args and str_term(args[0]) is None and args[0] is not None:
            ip.raise_(TypeError, 'must be str')
        if args and str_term(args[0]) is not None:
            if ip.branch(str_term(args[0]) == z3.StringVal('')):
                ip.raise_(ValueError, 'empty separator')
        terms = [ip.to_v(arg) for arg in args]
        content = Base(ip, func('str_split', ['str'] + ['val'] * len(terms), 'content')(obj.t, *terms), frozenset(['str']))
        ip.assume(content.n >= (1 if args else 0))
        return SList(ip, content)
    if name == 'splitlines':
        return SList(ip, Base(ip, func('str_splitlines', ['str'], 'content')(obj.t), frozenset(['str'])))
    if name == 'encode':
        raise Unsupported('str.encode')
    if name == 'format':
        raise Unsupported('str.format')
    if name in STR_RET:
        for arg in args:
            if name in ('replace',) and str_term(arg) is None:
                ip.raise_(TypeError, 'must be str')
        terms = [ip.to_v(arg) for arg in args]
        t = func(f'str_{name}', ['str'] + ['val'] * len(terms), STR_RET[name])(obj.t, *terms)
        return SV(STR_RET[name], t) if STR_RET[name] != 'bool' else mk_bool(t)
    raise Unsupported(f'str.{name}')


def value_method(ip, obj, name, args, kwargs):
    kind = ip.kind(obj)
    if 'value_method' in ip.contracts:
        result = ip.contracts['value_method'](ip, obj, kind, name, args, kwargs)
        if result is not NotImplemented:
            return result
    if kind in ('dtn', 'dta', 'date'):
        if name == 'astimezone' and not args and not kwargs and kind in ('dtn', 'dta'):
            t = uf_partial(ip, 'astimezone', ['val'], 'int', [obj.t], [OverflowError])
            return SV('val', V.dta(t))
        if name == 'replace' and not args:
            if set(kwargs) == {'tzinfo'} and kwargs['tzinfo'] is None and kind in ('dta', 'dtn'):
                if kind == 'dtn':
                    return obj
                t = func('wall_clock', ['val'], 'int')(obj.t)
                ip.assume(z3.And(t >= 0, t <= MICROS_MAX))
                return SV('val', V.dtn(t))
            if set(kwargs) == {'microsecond'} and kind == 'dtn':
                n = V.n(obj.t)
                micro = ival(ip.int_of(kwargs['microsecond']))
                if not ip.branch(z3.And(micro >= 0, micro < 1000000)):
                    ip.raise_(ValueError, 'microsecond must be in 0..999999')
                return SV('val', V.dtn(z3.simplify(n - n % 1000000 + micro)))
        if name == 'isoformat' and not args and not kwargs:
            return SV('str', func('isoformat', ['val'], 'str')(obj.t))
        if name == 'date' and kind == 'dtn':
            return SV('val', V.date(func('date_part', ['val'], 'int')(obj.t)))
        raise Unsupported(f'datetime.{name}')
    if kind == 'rex':
        if name in ('match', 'search', 'fullmatch', 'sub', 'split', 'finditer', 'findall'):
            raise Unsupported(f'method {name} of a regex value')
    if kind == 'fn':
        raise Unsupported(f'attribute {name} of a function value')
    return ip.raise_(AttributeError, name)


def list_method(ip, obj, name, args, kwargs):
    if name == 'append':
        obj.content = content_cat(obj.content, Lit([args[0]]))
        return None
    if name == 'extend':
        obj.content = content_cat(obj.content, content_of(ip, args[0]))
        return None
    if name == 'insert':
        k = ip.int_of(args[0])
        lo, _ = slice_bounds(ip, slice(wrap_int(ival(k)), None), obj.content.n)
        left = slice_of(ip, obj.content, 0, lo)
        right = slice_of(ip, obj.content, lo, obj.content.n)
        obj.content = content_cat(content_cat(left, Lit([args[1]])), right)
        return None
    if name == 'pop':
        n = obj.content.n
        if args:
            k = obj.index(ip, args[0])
        else:
            if isinstance(n, int) and n == 0 or not isinstance(n, int) and ip.branch(n == 0):
                ip.raise_(IndexError, 'pop from empty list')
            k = simp(n - 1)
        value = obj.content.at(ip, k)
        obj.content = content_cat(slice_of(ip, obj.content, 0, k), slice_of(ip, obj.content, simp(k + 1), n))
        return value
    if name == 'clear':
        obj.content = Lit([])
        return None
    if name == 'copy':
        return SList(ip, obj.content)
    if name == 'reverse':
        content = obj.content
        if isinstance(content, Lit):
            obj.content = Lit(content.items[::-1])
        else:
            obj.content = MapC(content.n, lambda ip2, k: content.at(ip2, simp(content.n - 1 - k)))
        return None
    if name == 'sort':
        contract = ip.contracts.get('sort')
        if contract is None:
            raise Unsupported('list.sort')
        return contract(ip, obj, args, kwargs)
    if name == 'index' and isinstance(obj.content, Lit):
        for ix, item in enumerate(obj.content.items):
            if ip.truth(ip.py_eq(item, args[0])):
                return ix
        ip.raise_(ValueError, 'not in list')
    if not hasattr(list, name):
        ip.raise_(AttributeError, name)
    raise Unsupported(f'list.{name}')


def slice_of(ip, content, lo, hi):
    from pyvc.engine import content_slice
    return content_slice(ip, content, lo, hi)


def dict_method(ip, obj, name, args, kwargs):
    if name == 'get':
        found, value = obj.lookup(ip, args[0])
        return value if found else (args[1] if len(args) > 1 else kwargs.get('default'))
    if name in ('keys', 'values', 'items'):
        return DictView(obj, name)
    if name == 'copy':
        return obj.clone(ip)
    if name == 'setdefault':
        found, value = obj.lookup(ip, args[0])
        if found:
            return value
        value = args[1] if len(args) > 1 else None
        obj.setitem(ip, args[0], value)
        return value
    if name == 'pop':
        found, value = obj.lookup(ip, args[0])
        if not found:
            if len(args) > 1:
                return args[1]
            ip.raise_(KeyError, args[0])
        obj.delitem(ip, args[0])
        return value
    if name == 'update':
        for arg in args:
            arg = ip.unwrap(arg)
            if isinstance(arg, SDict):
                items = arg.concrete()
                if items is not None:
                    for key, value in items.items():
                        obj.setitem(ip, key, value)
                    continue
                if obj is arg:
                    continue
                t = func('d_update', ['dcontent', 'dcontent'], 'dcontent')(obj.term(ip), arg.term(ip))
                obj.base, obj.writes = t, []
                continue
            if isinstance(arg, dict):
                for key, value in arg.items():
                    obj.setitem(ip, key, value)
                continue
            contract = ip.contracts.get('dict.update')
            if contract is not None:
                result = contract(ip, obj, arg)
                if result is not NotImplemented:
                    continue
            for pair in iterate(ip, arg):
                key, value = concrete_items(ip, pair)
                obj.setitem(ip, key, value)
        for key, value in kwargs.items():
            obj.setitem(ip, key, value)
        return None
    if name == 'clear':
        obj.base, obj.writes = None, []
        return None
    if not hasattr(dict, name):
        ip.raise_(AttributeError, name)
    raise Unsupported(f'dict.{name}')
