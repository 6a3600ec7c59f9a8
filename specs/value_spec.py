"""Specification functions for BareScript values, written from the property statements and the language documentation.

They are used twice: as run-time oracles by the harness, and symbolically (their source text is executed by pyvc) as the
postconditions of the functions of src/bare_script/value.py.
"""

import datetime
import math
import re

from bare_script.value import value_json

REGEX_TYPE = type(re.compile(''))


def spec_is_number(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def spec_type(v):
    """systemType: the type name of a value (None if it is not a BareScript value)"""
    if v is None:
        return 'null'
    if isinstance(v, str):
        return 'string'
    if isinstance(v, bool):
        return 'boolean'
    if isinstance(v, int):
        return 'number'
    if isinstance(v, float):
        return 'number'
    if isinstance(v, datetime.date):
        return 'datetime'
    if isinstance(v, dict):
        return 'object'
    if isinstance(v, list):
        return 'array'
    if callable(v):
        return 'function'
    if isinstance(v, REGEX_TYPE):
        return 'regex'
    return None


def spec_boolean(v):
    """Truthiness: null, false, 0, '' and [] are false, everything else is true"""
    if v is None:
        return False
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, float)):
        return v != 0
    if isinstance(v, str):
        return v != ''
    if isinstance(v, list):
        return len(v) > 0
    return True


def spec_local(v):
    """The naive local datetime of a date/datetime"""
    if not isinstance(v, datetime.datetime):
        return datetime.datetime(v.year, v.month, v.day)
    if v.tzinfo is not None:
        return v.astimezone().replace(tzinfo=None)
    return v


def sign(n):
    return -1 if n < 0 else (1 if n > 0 else 0)


def spec_compare(l, r):
    """The total value order: null first, values of one type by content, values of different types by type name"""
    if l is None or r is None:
        return (0 if r is None else -1) if l is None else 1
    tl = spec_type(l) or 'unknown'
    tr = spec_type(r) or 'unknown'
    if tl != tr:
        return -1 if tl < tr else 1
    if tl == 'array':
        for ix in range(min(len(l), len(r))):
            c = spec_compare(l[ix], r[ix])
            if c != 0:
                return c
        return sign(len(l) - len(r))
    if tl == 'object':
        kl = sorted(l)
        kr = sorted(r)
        for ix in range(min(len(kl), len(kr))):
            if kl[ix] != kr[ix]:
                return -1 if kl[ix] < kr[ix] else 1
            c = spec_compare(l[kl[ix]], r[kr[ix]])
            if c != 0:
                return c
        return sign(len(kl) - len(kr))
    if tl == 'datetime':
        l = spec_local(l)
        r = spec_local(r)
    elif tl not in ('string', 'boolean', 'number'):
        return 0
    return -1 if l < r else (0 if l == r else 1)


def spec_parse_number(text):
    """The finite number that a text is, or None (digit separators are no part of a number)"""
    if '_' in text:
        return None
    try:
        number = float(text)
    except ValueError:
        return None
    return number if math.isfinite(number) else None


def spec_parse_integer(text, radix):
    """The integer that a text is in a radix, or None"""
    if '_' in text:
        return None
    try:
        return int(text, radix)
    except ValueError:
        return None


def spec_string(v):
    """The text of a value that is no float and no datetime"""
    if v is None:
        return 'null'
    if isinstance(v, str):
        return v
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, (list, dict)):
        return value_json(v)
    return '<function>' if callable(v) else '<regex>'
