"""Contracts of the library functions for the deductive layer: the result and the container updates, in terms of the host's sequence, map and string operations.

Each contract is called with the validated arguments (lib_spec.spec_validate) and, for the functions in WITH_OPTIONS, the options; it returns FAIL for "the documented
failure value, nothing changed". The contracts are executed by the same interpreter as the code, on the same symbolic arguments.
"""

import functools
import math
import re
import urllib.parse

from bare_script.value import value_string
from specs.lib_spec import FAIL, array_delete, array_get, array_index_of, array_last_index_of, array_pop, array_push, array_set, array_shift
from specs.value_spec import spec_boolean, spec_compare, spec_is_number, spec_local, spec_type


def array_slice(a, start, end):
    if end is None:
        end = len(a)
    if start > len(a) or end > len(a):
        return FAIL
    return [a[ix] for ix in range(start, end)]


def array_sort(a, fn, options):
    a.sort(key=functools.cmp_to_key(spec_compare if fn is None else (lambda x, y: fn([x, y], options))))
    return a


def array_extend(a, b):
    a += b
    return a


def object_assign(a, b):
    a.update(b)
    return a


def object_delete(o, k):
    if k in o:
        del o[k]


def object_get(o, k, d):
    return o[k] if k in o else d


def object_set(o, k, v):
    o[k] = v
    return v


def string_char_code_at(s, i):
    return ord(s[i]) if i < len(s) else FAIL


def string_from_char_code(codes):
    for code in codes:
        if not spec_is_number(code) or (isinstance(code, float) and not code.is_integer()) or not 0 <= code <= 0x10ffff:
            return FAIL
    return ''.join(chr(int(code)) for code in codes)


def string_index_of(s, t, i):
    return s.find(t, i) if i < len(s) else FAIL


def string_last_index_of(s, t, i):
    if i is None:
        i = len(s) - 1
    # The last occurrence that starts at or before the index
    return s.rfind(t, 0, i + len(t)) if i < len(s) else FAIL


def string_slice(s, start, end):
    if end is None:
        end = len(s)
    if start > len(s) or end > len(s):
        return FAIL
    return s[start:end]


def string_split(s, sep):
    return FAIL if sep == '' else s.split(sep)


def math_log(x, base):
    return FAIL if base == 1 else math.log(x, base)


def math_sign(x):
    if x > 0:
        return 1
    return -1 if x < 0 else 0


def system_global_get(name, default, options):
    if options is None or options.get('globals') is None:
        return default
    return options['globals'][name] if name in options['globals'] else default


def system_global_set(name, value, options):
    if options is not None and options.get('globals') is not None:
        options['globals'][name] = value
    return value


def system_log(message, options):
    if options is not None and options.get('logFn') is not None:
        options['logFn'](value_string(message))


def system_log_debug(message, options):
    if options is not None and options.get('logFn') is not None and options.get('debug'):
        options['logFn'](value_string(message))


CONTRACTS = {
    'arrayCopy': lambda a: [v for v in a], 'arrayDelete': array_delete, 'arrayExtend': array_extend, 'arrayGet': array_get, 'arrayIndexOf': array_index_of,
    'arrayJoin': lambda a, sep: sep.join([value_string(v) for v in a]), 'arrayLastIndexOf': array_last_index_of, 'arrayLength': lambda a: len(a),
    'arrayNew': lambda values: values, 'arrayNewSize': lambda n, v: [v] * n, 'arrayPop': array_pop, 'arrayPush': array_push, 'arraySet': array_set,
    'arrayShift': array_shift, 'arraySlice': array_slice, 'arraySort': array_sort, 'objectAssign': object_assign, 'objectCopy': lambda o: o.copy(),
    'objectDelete': object_delete, 'objectGet': object_get, 'objectHas': lambda o, k: k in o, 'objectKeys': lambda o: [k for k in o], 'objectSet': object_set,
    'stringCharCodeAt': string_char_code_at, 'stringEndsWith': lambda s, t: s.endswith(t), 'stringFromCharCode': string_from_char_code,
    'stringIndexOf': string_index_of, 'stringLastIndexOf': string_last_index_of, 'stringLength': lambda s: len(s), 'stringLower': lambda s: s.lower(),
    'stringNew': lambda v: value_string(v), 'stringRepeat': lambda s, n: s * n, 'stringReplace': lambda s, t, u: s.replace(t, u), 'stringSlice': string_slice,
    'stringSplit': string_split, 'stringStartsWith': lambda s, t: s.startswith(t), 'stringTrim': lambda s: s.strip(), 'stringUpper': lambda s: s.upper(),
    'regexEscape': lambda s: re.escape(s), 'urlEncode': lambda s: urllib.parse.quote(s, safe="':/&+"),
    'urlEncodeComponent': lambda s: urllib.parse.quote(s, safe="'"),
    'mathAbs': lambda x: -x if x < 0 else x, 'mathAcos': lambda x: math.acos(x), 'mathAsin': lambda x: math.asin(x), 'mathAtan': lambda x: math.atan(x),
    'mathAtan2': lambda y, x: math.atan2(y, x), 'mathCeil': lambda x: math.ceil(x), 'mathCos': lambda x: math.cos(x), 'mathFloor': lambda x: math.floor(x),
    'mathLn': lambda x: math.log(x), 'mathLog': math_log, 'mathSign': math_sign, 'mathSin': lambda x: math.sin(x), 'mathSqrt': lambda x: math.sqrt(x),
    'mathTan': lambda x: math.tan(x), 'systemBoolean': lambda v: spec_boolean(v), 'systemCompare': lambda a, b: spec_compare(a, b),
    'systemType': lambda v: spec_type(v), 'systemGlobalGet': system_global_get, 'systemGlobalSet': system_global_set, 'systemLog': system_log,
    'systemLogDebug': system_log_debug,
    'datetimeYear': lambda d: spec_local(d).year, 'datetimeMonth': lambda d: spec_local(d).month, 'datetimeDay': lambda d: spec_local(d).day,
    'datetimeHour': lambda d: spec_local(d).hour, 'datetimeMinute': lambda d: spec_local(d).minute, 'datetimeSecond': lambda d: spec_local(d).second,
    'datetimeMillisecond': lambda d: spec_local(d).microsecond // 1000, 'systemIs': lambda a, b: a is b or (a == b and spec_is_number(a) and spec_is_number(b)),
}
WITH_OPTIONS = {'arrayIndexOf', 'arrayLastIndexOf', 'arraySort', 'systemGlobalGet', 'systemGlobalSet', 'systemLog', 'systemLogDebug'}
