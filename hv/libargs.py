"""Argument lists for library functions"""

from hv import values
from hv.core import FN_A, FN_B
from specs.lib_spec import SIGS

ROWS = [[], [{'a': 1, 'b': 2}, {'a': 1, 'b': 3}, {'a': 2, 'b': None}], [{'a': 'x', 'n': 1.5}, {'a': 'y'}, {'a': 'x', 'n': 2.5}], [{'a': 'x,}', 'n': -1}], [1], [{}]]
EXPRS = ['a', 'a > 1', 'a + b', 'n * 2', 'missing', 'a ==', 'true', "a == 'x'", 'hvFnA(a)', 'len(a)', '1 / 0', 'nope(1)', 'x + 1']
STRS = {'expr': EXPRS, 'joinExpr': EXPRS, 'rightExpr': EXPRS, 'fieldName': ['a', 'c', ''], 'typeName': ['Foo', 'int', ''],
        'pattern': ['a', 'b+', '(a)(?<n>b)?', '(', '[', '', '.*', '\\d+'], 'flags': ['', 'i', 'ms', 'x'], 'substr': ['', 'b', '$1', '$<n>', '$$', '\\', 'a'],
        'separator': [',', '', ' ', 'b'], 'search': ['', 'a', 'b', 'bc', 'abc', 'z'], 'key': ['a', 'b', '', 'missing']}
TEXTS = ['', 'a', 'abc', 'abcabc', ' a b ', '12', '12.5', '-7', '1e5', 'nan', 'inf', '0x10', 'ff', 'zz', '[1, 2]', '{"a": 1}', '{', 'null', '2024-01-02', '2024-02-30',
         '2024-01-02T03:04:05Z', '2024-01-02T03:04:05.678-08:00', '2024-13-01', 'a,b\n1,2', 'struct Foo\n\n    int a\n', 'é\U0001f600x', '1_000', ' 5 ', '٣', '9' * 5000, '\ud800']
SMALL = [0, 1, 2, 3, 4, 5, 10, 0.0, 1.0, 2.0, 3.0, -1, -1.0, 0.5, 2.5, 36, 16.0, 100, 50.0]
DATA_AGG = [{'categories': ['a'], 'measures': [{'field': 'b', 'function': 'sum'}]}, {'measures': [{'field': 'n', 'function': 'average', 'name': 'avg'}]},
            {'measures': [{'field': 'a', 'function': 'max'}, {'field': 'a', 'function': 'count', 'name': 'c'}]}, {'measures': []}, {}, {'categories': ['a'], 'measures': [
                {'field': 'b', 'function': 'stddev'}]}]
SIZED = {'arrayNewSize', 'stringRepeat', 'rept', 'mathRound', 'numberToFixed', 'round', 'fixed', 'datetimeNew', 'date', 'dataTop', 'jsonStringify'}
NON_FINITE = [float('inf'), float('-inf'), float('nan')]


def rand_number(rng, sized, wild=True):
    roll = rng.random()
    if roll < 0.7 or sized:
        return rng.choice(SMALL if roll < 0.9 else [200, -200, 0.25, 7.0])
    if roll < 0.9 or not wild:
        return rng.choice(values.NUMBERS)
    return rng.choice(values.HUGE + NON_FINITE)


def rand_arg(rng, name, param, wild=True):
    """One argument: mostly of the documented type"""
    want = param['type']
    sized = name in SIZED
    if rng.random() < 0.12:
        value = values.rand_value(rng, 2)
        if sized and isinstance(value, (int, float)) and not isinstance(value, bool):
            return rand_number(rng, True)
        return value
    if want is None:
        if sized or name == 'stringFromCharCode':
            return rand_number(rng, sized, wild) if rng.random() < 0.7 or name == 'stringFromCharCode' else rng.choice(['a', None, True])
        return values.rand_value(rng, 2)
    if want == 'number':
        if name == 'datetimeNew' and param['name'] == 'year':
            return rng.choice([2024, 2024.0, 1999, 100, 2000.0, 9999, 99, 1900.0])
        return rand_number(rng, sized, wild)
    if want == 'array':
        if name.startswith('data') and param['name'].lower().endswith('data'):
            return rng.choice(ROWS)
        if param['name'] == 'sorts':
            return rng.choice([[['a']], [['a', True], ['b']], [], [[]], ['a'], [['b', False], ['a', True]]])
        if param['name'] == 'categoryFields':
            return rng.choice([['a'], ['a', 'b'], [], ['missing']])
        return rng.choice(values.ARRAYS)
    if want == 'object':
        if param['name'] == 'aggregation':
            return rng.choice(DATA_AGG)
        return rng.choice(values.OBJECTS)
    if want == 'string':
        return rng.choice(STRS[param['name']]) if param['name'] in STRS and rng.random() < 0.8 else rng.choice(TEXTS + values.STRINGS)
    if want == 'function':
        return rng.choice([FN_A, FN_B])
    return rng.choice(values.BY_TYPE[want])


def rand_args(rng, name, wild=True):
    """An argument list: mostly right, sometimes missing/surplus arguments"""
    params = SIGS[name][0]
    args = []
    for param in params:
        if param['rest']:
            args.extend(rand_arg(rng, name, param, wild) if rng.random() < 0.8 else rng.choice(['a', 'k']) for _ in range(rng.randrange(0, 4)))
        else:
            args.append(rand_arg(rng, name, param, wild))
    roll = rng.random()
    if roll < 0.25 and args:
        args = args[:rng.randrange(len(args) + 1)]
    elif roll < 0.33:
        args.append(values.rand_value(rng, 1))
    return args
