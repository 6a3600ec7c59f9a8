"""Pools of BareScript values (encoded) and argument generators"""

import datetime
import re

from hv.core import FN_A, FN_B, enc

DT = datetime.datetime
UTC = datetime.timezone.utc

NUMBERS = [0, 1, -1, 2, 3, 7, 10, 0.0, -0.0, 1.0, -1.0, 2.0, 2.5, -2.5, 0.1, 1e-7, 0.5, -0.5, 100, 255, 1000.0, 1e10, 123456789, 1e15, 1e16, -1e16, 1e21, 2 ** 53,
           3.141592653589793]
HUGE = [1e308, -1e308, 10 ** 400, -10 ** 400, 1e-320, 2.0 ** 53 + 2, 10 ** 16, 2 ** 64]
STRINGS = ['', 'a', 'b', 'abc', 'A', ' ', '0', '1', 'null', 'true', 'a,b', 'éü', '\U0001f600', 'x' * 10, '2024-02-30', '2024-01-02', '<b>', '"q"', '\\', '\n']
DATES = [DT(2024, 1, 2), DT(2024, 1, 2, 3, 4, 5, 678000), DT(1999, 12, 31, 23, 59, 59, 999000), DT(2024, 2, 29), DT(100, 1, 1), DT(9000, 12, 31), datetime.date(2024, 1, 2),
         datetime.date(2000, 2, 29), DT(2024, 1, 2, 3, 4, 5, tzinfo=UTC), DT(2024, 1, 2, 3, 4, 5, tzinfo=datetime.timezone(datetime.timedelta(hours=5, minutes=30)))]
ARRAYS = [[], [1], [1, 2], [2, 1], ['a'], [None], [[]], [[1], [2]], [1, 'a', None], [{}], [True, False], [1.0, 2.5, 3], ['b', 'a', 'c', 'a'], [[1, [2, [3]]]],
          [datetime.datetime(2024, 1, 2)]]
OBJECTS = [{}, {'a': 1}, {'a': 2}, {'b': 1}, {'a': 1, 'b': 2}, {'b': 2, 'a': 1}, {'a': None}, {'a': [1]}, {'a': {'b': {}}}, {'': 0}, {'a': 'x', 'c': [True]}, {'a b': 1.5}]
FUNCS = [FN_A, FN_B]
REGEXES = [re.compile('a'), re.compile('b+')]

POOL = [None, True, False] + NUMBERS + STRINGS + DATES + ARRAYS + OBJECTS + FUNCS + REGEXES
BY_TYPE = {'null': [None], 'boolean': [True, False], 'number': NUMBERS, 'string': STRINGS, 'datetime': DATES, 'array': ARRAYS, 'object': OBJECTS, 'function': FUNCS,
           'regex': REGEXES}


def rand_value(rng, depth=2, json=False, ints=True):
    roll = rng.random()
    if depth > 0 and roll < 0.2:
        return [rand_value(rng, depth - 1, json, ints) for _ in range(rng.randrange(0, 4))]
    if depth > 0 and roll < 0.35:
        return {rng.choice(['a', 'b', 'c', 'k1', '', 'é']): rand_value(rng, depth - 1, json, ints) for _ in range(rng.randrange(0, 4))}
    types = ['null', 'boolean', 'number', 'number', 'string', 'string'] + ([] if json else ['datetime', 'function', 'regex'])
    return rng.choice(BY_TYPE[rng.choice(types)])


def rand_enc(rng, depth=2):
    return enc(rand_value(rng, depth))
