"""Reference models of the array*, object*, string*, math*, number*, datetime*, json*, url* and system* library functions.

SIGS gives each function's documented parameters and failure value; the function of the same name (with the separator removed) is the reference
model, called with validated arguments (integer parameters as int). A model returns FAIL for "the documented failure value, nothing changed".
Written from the documentation comments ($doc/$arg/$return) and the property statements, not from the function bodies.
"""

import functools
import json
import math
import re

from specs.value_spec import spec_boolean, spec_compare, spec_is_number, spec_type


class _Fail:
    def __repr__(self):
        return 'FAIL'


FAIL = _Fail()
REQUIRED = object()


def P(name, type_=None, default=REQUIRED, nullable=False, integer=False, gte=None, lte=None, gt=None, rest=False):
    return {'name': name, 'type': type_, 'default': default, 'nullable': nullable, 'integer': integer, 'gte': gte, 'lte': lte, 'gt': gt, 'rest': rest}


def index(name='index', **kwargs):
    return P(name, 'number', integer=True, gte=0, **kwargs)


SIGS = {
    'arrayCopy': ([P('array', 'array')], None),
    'arrayDelete': ([P('array', 'array'), index()], None),
    'arrayExtend': ([P('array', 'array'), P('array2', 'array')], None),
    'arrayGet': ([P('array', 'array'), index()], None),
    'arrayIndexOf': ([P('array', 'array'), P('value'), index(default=0)], -1),
    'arrayJoin': ([P('array', 'array'), P('separator', 'string')], None),
    'arrayLastIndexOf': ([P('array', 'array'), P('value'), index(nullable=True)], -1),
    'arrayLength': ([P('array', 'array')], 0),
    'arrayNew': ([P('values', rest=True)], None),
    'arrayNewSize': ([index('size', default=0), P('value', default=0)], None),
    'arrayPop': ([P('array', 'array')], None),
    'arrayPush': ([P('array', 'array'), P('values', rest=True)], None),
    'arraySet': ([P('array', 'array'), index(), P('value')], None),
    'arrayShift': ([P('array', 'array')], None),
    'arraySlice': ([P('array', 'array'), index('start', default=0), index('end', nullable=True)], None),
    'arraySort': ([P('array', 'array'), P('compareFn', 'function', nullable=True)], None),
    'objectAssign': ([P('object', 'object'), P('object2', 'object')], None),
    'objectCopy': ([P('object', 'object')], None),
    'objectDelete': ([P('object', 'object'), P('key', 'string')], None),
    'objectGet': ([P('object', 'object'), P('key', 'string'), P('defaultValue')], 'arg2'),
    'objectHas': ([P('object', 'object'), P('key', 'string')], False),
    'objectKeys': ([P('object', 'object')], None),
    'objectNew': ([P('keyValues', rest=True)], None),
    'objectSet': ([P('object', 'object'), P('key', 'string'), P('value')], None),
    'stringCharCodeAt': ([P('string', 'string'), index()], None),
    'stringEndsWith': ([P('string', 'string'), P('search', 'string')], None),
    'stringFromCharCode': ([P('char_codes', rest=True)], None),
    'stringIndexOf': ([P('string', 'string'), P('search', 'string'), index(default=0)], -1),
    'stringLastIndexOf': ([P('string', 'string'), P('search', 'string'), index(nullable=True)], -1),
    'stringLength': ([P('string', 'string')], 0),
    'stringLower': ([P('string', 'string')], None),
    'stringNew': ([P('value')], None),
    'stringRepeat': ([P('string', 'string'), index('count')], None),
    'stringReplace': ([P('string', 'string'), P('substr', 'string'), P('newSubstr', 'string')], None),
    'stringSlice': ([P('string', 'string'), index('start'), index('end', nullable=True)], None),
    'stringSplit': ([P('string', 'string'), P('separator', 'string')], None),
    'stringStartsWith': ([P('string', 'string'), P('search', 'string')], None),
    'stringTrim': ([P('string', 'string')], None),
    'stringUpper': ([P('string', 'string')], None),
    'regexEscape': ([P('string', 'string')], None),
    'urlEncode': ([P('url', 'string')], None),
    'urlEncodeComponent': ([P('url', 'string')], None),
    # Not in C15's list - used by C05, C12
    'dataAggregate': ([P('data', 'array'), P('aggregation', 'object')], None),
    'dataCalculatedField': ([P('data', 'array'), P('fieldName', 'string'), P('expr', 'string'), P('variables', 'object', nullable=True)], None),
    'dataFilter': ([P('data', 'array'), P('expr', 'string'), P('variables', 'object', nullable=True)], None),
    'dataJoin': ([P('leftData', 'array'), P('rightData', 'array'), P('joinExpr', 'string'), P('rightExpr', 'string', nullable=True),
                  P('isLeftJoin', 'boolean'), P('variables', 'object', nullable=True)], None),
    'dataParseCSV': ([P('text', 'string', rest=True)], None),
    'dataSort': ([P('data', 'array'), P('sorts', 'array')], None),
    'dataTop': ([P('data', 'array'), P('count', 'number', integer=True, gte=1), P('categoryFields', 'array', nullable=True)], None),
    'dataValidate': ([P('data', 'array'), P('csv', 'boolean')], None),
    'datetimeDay': ([P('datetime', 'datetime')], None),
    'datetimeHour': ([P('datetime', 'datetime')], None),
    'datetimeISOFormat': ([P('datetime', 'datetime'), P('isDate', 'boolean')], None),
    'datetimeISOParse': ([P('string', 'string')], None),
    'datetimeMillisecond': ([P('datetime', 'datetime')], None),
    'datetimeMinute': ([P('datetime', 'datetime')], None),
    'datetimeMonth': ([P('datetime', 'datetime')], None),
    'datetimeNew': ([P('year', 'number', integer=True, gte=100), P('month', 'number', integer=True), P('day', 'number', integer=True, gte=-10000, lte=10000)] +
                    [P(name, 'number', integer=True, default=0) for name in ('hour', 'minute', 'second', 'millisecond')], None),
    'datetimeNow': ([P('unused', rest=True)], None),
    'datetimeSecond': ([P('datetime', 'datetime')], None),
    'datetimeToday': ([P('unused', rest=True)], None),
    'datetimeYear': ([P('datetime', 'datetime')], None),
    'jsonParse': ([P('string', 'string')], None),
    'jsonStringify': ([P('value'), P('indent', 'number', nullable=True, integer=True, gte=1)], None),
    'mathAbs': ([P('x', 'number')], None),
    'mathAcos': ([P('x', 'number')], None),
    'mathAsin': ([P('x', 'number')], None),
    'mathAtan': ([P('x', 'number')], None),
    'mathAtan2': ([P('y', 'number'), P('x', 'number')], None),
    'mathCeil': ([P('x', 'number')], None),
    'mathCos': ([P('x', 'number')], None),
    'mathFloor': ([P('x', 'number')], None),
    'mathLn': ([P('x', 'number', gt=0)], None),
    'mathLog': ([P('x', 'number', gt=0), P('base', 'number', default=10, gt=0)], None),
    'mathMax': ([P('values', rest=True)], None),
    'mathMin': ([P('values', rest=True)], None),
    'mathPi': ([P('unused', rest=True)], None),
    'mathRandom': ([P('unused', rest=True)], None),
    'mathRound': ([P('x', 'number'), index('digits', default=0)], None),
    'mathSign': ([P('x', 'number')], None),
    'mathSin': ([P('x', 'number')], None),
    'mathSqrt': ([P('x', 'number', gte=0)], None),
    'mathTan': ([P('x', 'number')], None),
    'numberParseInt': ([P('string', 'string'), P('radix', 'number', default=10, integer=True, gte=2, lte=36)], None),
    'numberParseFloat': ([P('string', 'string')], None),
    'numberToFixed': ([P('x', 'number'), index('digits', default=2), P('trim', 'boolean')], None),
    'regexMatch': ([P('regex', 'regex'), P('string', 'string')], None),
    'regexMatchAll': ([P('regex', 'regex'), P('string', 'string')], None),
    'regexNew': ([P('pattern', 'string'), P('flags', 'string', nullable=True)], None),
    'regexReplace': ([P('regex', 'regex'), P('string', 'string'), P('substr', 'string')], None),
    'regexSplit': ([P('regex', 'regex'), P('string', 'string')], None),
    'schemaParse': ([P('lines', rest=True)], None),
    'schemaParseEx': ([P('lines'), P('types', 'object', nullable=True), P('filename', 'string', default='')], None),
    'schemaTypeModel': ([P('unused', rest=True)], None),
    'schemaValidate': ([P('types', 'object'), P('typeName', 'string'), P('value')], None),
    'schemaValidateTypeModel': ([P('types', 'object')], None),
    'systemBoolean': ([P('value')], None),
    'systemCompare': ([P('left'), P('right')], None),
    'systemFetch': ([P('url')], None),
    'systemGlobalGet': ([P('name', 'string'), P('defaultValue')], None),
    'systemGlobalSet': ([P('name', 'string'), P('value')], None),
    'systemIs': ([P('value1'), P('value2')], None),
    'systemLog': ([P('message')], None),
    'systemLogDebug': ([P('message')], None),
    'systemPartial': ([P('func', 'function'), P('args', rest=True)], None),
    'systemType': ([P('value')], None),
}

C15_FUNCTIONS = [name for name in SIGS if name.startswith(('array', 'object', 'string', 'url')) or name == 'regexEscape']


def type_ok(param, value):
    """Does a (present, non-null) argument satisfy its parameter's documented type and range?"""
    want = param['type']
    if want is None:
        return True
    if want == 'number':
        if not spec_is_number(value):
            return False
        if param['integer'] and isinstance(value, float) and not value.is_integer():
            return False
        if param['gte'] is not None and not value >= param['gte']:
            return False
        if param['lte'] is not None and not value <= param['lte']:
            return False
        if param['gt'] is not None and not value > param['gt']:
            return False
        return True
    return spec_type(value) == want


def spec_validate(name, args):
    """The validated argument list, or FAIL"""
    params, _ = SIGS[name]
    res = []
    for ix, param in enumerate(params):
        if param['rest']:
            res.append(list(args[ix:]))
            return res
        if ix >= len(args):
            if param['default'] is not REQUIRED:
                res.append(param['default'])
            elif param['type'] == 'boolean':
                res.append(False)
            elif param['type'] is None or param['nullable']:
                res.append(None)
            else:
                return FAIL
            continue
        value = args[ix]
        if param['type'] == 'boolean':
            value = spec_boolean(value)
        elif value is None:
            if param['type'] is not None and not param['nullable']:
                return FAIL
        elif not type_ok(param, value):
            return FAIL
        elif param['integer']:
            value = int(value)
        res.append(value)
    if len(args) > len(params):
        return FAIL
    return res


def spec_call(name, args, options=None):
    """(result, failed): the reference model's result of a library call; the model mutates the containers in args like the real function must"""
    fail = SIGS[name][1]
    if fail == 'arg2':
        fail = args[2] if len(args) > 2 else None
    valid = spec_validate(name, list(args))
    if valid is FAIL:
        return fail, True
    model = MODELS[name]
    res = model(*valid, options) if name in WITH_OPTIONS else model(*valid)
    return (fail, True) if res is FAIL else (res, False)


#
# Models
#


def array_copy(a):
    return [v for v in a]


def array_delete(a, i):
    if i >= len(a):
        return FAIL
    a[i:i + 1] = []
    return None


def array_extend(a, b):
    a += list(b)
    return a


def array_get(a, i):
    return a[i] if i < len(a) else FAIL


def _find(a, v, indexes, options):
    for ix in indexes:
        hit = spec_boolean(v([a[ix]], options)) if spec_type(v) == 'function' else spec_compare(a[ix], v) == 0
        if hit:
            return ix
    return -1


def array_index_of(a, v, i, options):
    return _find(a, v, range(i, len(a)), options) if i < len(a) else FAIL


def array_last_index_of(a, v, i, options):
    if i is None:
        i = len(a) - 1
    return _find(a, v, reversed(range(0, i + 1)), options) if i < len(a) else FAIL


def array_join(a, sep):
    from bare_script.value import value_string  # pylint: disable=import-outside-toplevel
    res = ''
    for ix, v in enumerate(a):
        res += (sep if ix else '') + value_string(v)
    return res


def array_new_size(n, v):
    return [v] * n


def array_pop(a):
    if not a:
        return FAIL
    v = a[-1]
    a[:] = a[:-1]
    return v


def array_push(a, values):
    a[len(a):] = values
    return a


def array_set(a, i, v):
    if i >= len(a):
        return FAIL
    a[i:i + 1] = [v]
    return v


def array_shift(a):
    if not a:
        return FAIL
    v = a[0]
    a[:] = a[1:]
    return v


def array_slice(a, start, end):
    if end is None:
        end = len(a)
    if start > len(a) or end > len(a):
        return FAIL
    return [a[ix] for ix in range(start, end)]


def array_sort(a, fn, options):
    key = spec_compare if fn is None else (lambda x, y: fn([x, y], options))
    # Stable insertion sort
    out = []
    for v in a:
        ix = len(out)
        while ix > 0 and key(out[ix - 1], v) > 0:
            ix -= 1
        out.insert(ix, v)
    a[:] = out
    return a


def object_assign(a, b):
    for k, v in list(b.items()):
        a[k] = v
    return a


def object_delete(o, k):
    o.pop(k, None)
    return None


def object_get(o, k, d):
    return o[k] if k in o else d


def object_new(kvs):
    if any(spec_type(k) != 'string' for k in kvs[::2]):
        return FAIL
    return {kvs[ix]: (kvs[ix + 1] if ix + 1 < len(kvs) else None) for ix in range(0, len(kvs), 2)}


def object_set(o, k, v):
    o[k] = v
    return v


def string_char_code_at(s, i):
    return ord(s[i]) if i < len(s) else FAIL


def string_from_char_code(codes):
    for code in codes:
        if not spec_is_number(code) or (isinstance(code, float) and not code.is_integer()) or not 0 <= code <= 0x10ffff:
            return FAIL
    return ''.join(chr(int(code)) for code in codes)


def string_index_of(s, t, i):
    if i >= len(s):
        return FAIL
    return next((ix for ix in range(i, len(s) + 1) if s[ix:ix + len(t)] == t), -1)


def string_last_index_of(s, t, i):
    if i is None:
        if s == t == '':
            return 0
        i = len(s) - 1
    if i >= len(s):
        return FAIL
    return next((ix for ix in range(i, -1, -1) if s[ix:ix + len(t)] == t), -1)


def string_replace(s, t, u):
    return u.join(s.split(t)) if t != '' else u + ''.join(ch + u for ch in s)


def string_slice(s, start, end):
    if end is None:
        end = len(s)
    if start > len(s) or end > len(s):
        return FAIL
    return ''.join(s[ix] for ix in range(start, end))


def string_split(s, sep):
    if sep == '':
        return FAIL
    res = []
    while True:
        ix = next((ix for ix in range(len(s)) if s[ix:ix + len(sep)] == sep), -1)
        if ix < 0:
            res.append(s)
            return res
        res.append(s[:ix])
        s = s[ix + len(sep):]


def string_trim(s):
    lo, hi = 0, len(s)
    while lo < hi and s[lo].isspace():
        lo += 1
    while hi > lo and s[hi - 1].isspace():
        hi -= 1
    return s[lo:hi]


def string_new(v):
    from specs.eval_spec import spec_string  # pylint: disable=import-outside-toplevel
    return spec_string(v)


MODELS = {
    'arrayCopy': array_copy, 'arrayDelete': array_delete, 'arrayExtend': array_extend, 'arrayGet': array_get, 'arrayIndexOf': array_index_of,
    'arrayJoin': array_join, 'arrayLastIndexOf': array_last_index_of, 'arrayLength': len, 'arrayNew': lambda values: values,
    'arrayNewSize': array_new_size, 'arrayPop': array_pop, 'arrayPush': array_push, 'arraySet': array_set, 'arrayShift': array_shift,
    'arraySlice': array_slice, 'arraySort': array_sort, 'objectAssign': object_assign, 'objectCopy': lambda o: {k: o[k] for k in o},
    'objectDelete': object_delete, 'objectGet': object_get, 'objectHas': lambda o, k: k in o, 'objectKeys': lambda o: [k for k in o],
    'objectNew': object_new, 'objectSet': object_set, 'stringCharCodeAt': string_char_code_at,
    'stringEndsWith': lambda s, t: t == '' or s[-len(t):] == t, 'stringFromCharCode': string_from_char_code, 'stringIndexOf': string_index_of,
    'stringLastIndexOf': string_last_index_of, 'stringLength': len, 'stringLower': lambda s: s.lower(), 'stringNew': string_new,
    'stringRepeat': lambda s, n: ''.join(s for _ in range(n)), 'stringReplace': string_replace, 'stringSlice': string_slice,
    'stringSplit': string_split, 'stringStartsWith': lambda s, t: s[:len(t)] == t, 'stringTrim': string_trim, 'stringUpper': lambda s: s.upper(),
}
WITH_OPTIONS = {'arrayIndexOf', 'arrayLastIndexOf', 'arraySort'}
