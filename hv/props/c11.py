"""C11: value comparison is a total preorder and every consumer agrees with it"""

import datetime
import functools
import random
import re

from hv import values
from hv.core import FN_A, FN_B, dec, enc, same, snapshot
from specs.value_spec import spec_compare

TITLE = 'value comparison'
RULE = ('all ordered pairs (and, through a rank function, all triples) of a pool of several hundred values of all nine types with nesting to depth 3, int/float twins, dates, '
        'datetimes and aware datetimes; consumers (six operators, systemCompare, arraySort, dataSort, mathMin/Max, arrayIndexOf/LastIndexOf) on pairs and random '
        'lists; oracle: the specification order; non-trivial: the two values differ')
DT = datetime.datetime
TZ = datetime.timezone

BASE = [None, True, False, 0, 1, -1, 2, 10, 0.5, -0.5, 1.5, 1e300, -1e300, 5e-324, 2 ** 53, 2.0 ** 53, 2 ** 53 + 1, 1e16, 0.0, -0.0, 1.0, 2.0, -1.0, 10.0, float('inf'), float('-inf'),
        '', 'a', 'b', 'A', 'aa', 'ab', '0', '1', '10', '2', 'null', 'true', 'é', '\U0001f600', '\uffff', ' ', '\n', 'array', 'number',
        DT(2024, 1, 2), datetime.date(2024, 1, 2), DT(2024, 1, 2, 0, 0, 0, 1000), DT(2024, 1, 2, 3, 4, 5), datetime.date(2024, 1, 3), DT(1999, 12, 31), datetime.date(1999, 12, 31),
        DT(2024, 1, 2, 3, 4, 5, tzinfo=TZ.utc), DT(2024, 1, 2, 3, 4, 5, tzinfo=TZ(datetime.timedelta(hours=5))), DT(2024, 1, 2, 5, 4, 5, tzinfo=TZ(datetime.timedelta(hours=-3))),
        DT(2024, 1, 2, 8, 4, 5, tzinfo=TZ(datetime.timedelta(hours=5))), DT(2024, 1, 2, 3, 4, 5, 1), DT(100, 1, 1), DT(9000, 1, 1),
        FN_A, FN_B, re.compile('a'), re.compile('b'), [], {}]


def build_pool(seed, size):
    rng = random.Random(f'c11:{seed}')
    pool = list(BASE)
    scal = BASE[:-2]
    while len(pool) < size:
        roll = rng.random()
        src = pool if len(pool) < 250 else pool[:250]
        pick = lambda: rng.choice(src if rng.random() < 0.6 else scal)
        if roll < 0.5:
            val = [pick() for _ in range(rng.randrange(0, 4))]
        elif roll < 0.9:
            val = {rng.choice(['a', 'b', 'c', '', 'aa']): pick() for _ in range(rng.randrange(0, 4))}
        else:
            # A twin: integral numbers respelled
            val = twin(rng.choice(src))
        pool.append(val)
    return pool


def twin(val):
    if isinstance(val, bool):
        return val
    if isinstance(val, int) and abs(val) < 2 ** 53:
        return float(val)
    if isinstance(val, float) and val.is_integer() and abs(val) < 2 ** 53:
        return int(val)
    if isinstance(val, list):
        return [twin(v) for v in val]
    if isinstance(val, dict):
        return {k: twin(val[k]) for k in reversed(list(val))}
    return val


OPS = {'==': lambda c: c == 0, '!=': lambda c: c != 0, '<': lambda c: c < 0, '<=': lambda c: c <= 0, '>': lambda c: c > 0, '>=': lambda c: c >= 0}
OP_EXPR = {op: {'binary': {'op': op, 'left': {'variable': 'l'}, 'right': {'variable': 'r'}}} for op in OPS}
FLIP = [({'binary': {'op': op, 'left': {'function': {'name': 'systemCompare', 'args': [{'variable': 'l'}, {'variable': 'r'}]}}, 'right': {'number': 0.0}}}, op) for op in OPS]


def check_pair(case):
    from bare_script import evaluate_expression  # pylint: disable=import-outside-toplevel
    from bare_script.library import SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
    from bare_script.value import value_compare  # pylint: disable=import-outside-toplevel
    left, right = dec(case[0]), dec(case[1])
    want = spec_compare(left, right)
    got = value_compare(left, right)
    if isinstance(got, bool) or got != want:
        return f'compare differs: compare({left!r}, {right!r}) = {got!r}, the value order gives {want}'
    back = value_compare(right, left)
    if back != -want:
        return f'not antisymmetric: compare({right!r}, {left!r}) = {back!r}, the reverse is {got!r}'
    if value_compare(left, left) != 0 or value_compare(right, right) != 0:
        return f'not reflexive: {left!r} or {right!r}'
    got = SCRIPT_FUNCTIONS['systemCompare']([left, right], {})
    if got != want:
        return f'systemCompare differs: ({left!r}, {right!r}) = {got!r}, the value order gives {want}'
    variables = {'l': left, 'r': right}
    for op, test in OPS.items():
        got = evaluate_expression(OP_EXPR[op], None, variables, False)
        if got is not test(want):
            return f'operator differs: {left!r} {op} {right!r} = {got!r}, the value order gives {test(want)}'
    # Twins
    for l2, r2 in ((twin(left), right), (left, twin(right)), (twin(left), twin(right))):
        got = value_compare(l2, r2)
        if got != want:
            return f'int/float spelling matters: compare({l2!r}, {r2!r}) = {got!r}, with the other spelling {want}'
    # Two-element consumers
    least = left if want <= 0 else right
    for name, best in (('mathMin', spec_compare), ('mathMax', lambda a, b: spec_compare(b, a))):
        got = SCRIPT_FUNCTIONS[name]([left, right], {})
        if not (got is left or got is right) or best(got, left) > 0 or best(got, right) > 0:
            return f'{name} differs: ({left!r}, {right!r}) = {got!r}'
    got = SCRIPT_FUNCTIONS['arraySort']([[left, right]], {})
    if not (got[0] is least and got[1] is (right if least is left else left)):
        return f'arraySort differs: [{left!r}, {right!r}] sorts to {got!r}'
    if not callable(right):
        got = SCRIPT_FUNCTIONS['arrayIndexOf']([[left, right], right], {})
        if got != (0 if want == 0 else 1):
            return f'arrayIndexOf differs: {right!r} in [{left!r}, {right!r}] = {got!r}'
    return None


def check_list(case):
    from bare_script.data import sort_data  # pylint: disable=import-outside-toplevel
    from bare_script.library import SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
    items = [dec(item) for item in case]
    before = snapshot(items)
    key = functools.cmp_to_key(spec_compare)
    want = sorted(items, key=key)
    arg = list(items)
    got = SCRIPT_FUNCTIONS['arraySort']([arg], {})
    if got is not arg:
        return 'arraySort result is not the array'
    if len(got) != len(want) or any(g is not w for g, w in zip(got, want)):
        return f'arraySort differs: {items!r} sorts to {got!r}, the value order gives {want!r}'
    for name, pick in (('mathMin', min), ('mathMax', max)):
        got = SCRIPT_FUNCTIONS[name](list(items), {})
        best = pick(items, key=key) if items else None
        if items and not any(got is item for item in items) or spec_compare(got, best) != 0:
            return f'{name} differs: of {items!r} = {got!r}, the value order gives {best!r}'
    for value in items:
        if callable(value):
            continue
        for copy_ in (value, twin(value)):
            for start in {0, len(items) // 2, len(items) - 1}:
                got = SCRIPT_FUNCTIONS['arrayIndexOf']([items, copy_, start], {})
                best = next((ix for ix in range(start, len(items)) if spec_compare(items[ix], copy_) == 0), -1)
                if got != best:
                    return f'arrayIndexOf differs: {copy_!r} in {items!r} from {start} = {got!r}, the value order gives {best}'
            got = SCRIPT_FUNCTIONS['arrayLastIndexOf']([items, copy_], {})
            best = next((ix for ix in range(len(items) - 1, -1, -1) if spec_compare(items[ix], copy_) == 0), -1)
            if got != best:
                return f'arrayLastIndexOf differs: {copy_!r} in {items!r} = {got!r}, the value order gives {best}'
    # dataSort: two keys, both directions
    rows = [({'k': item, 'g': items[ix // 2]} if ix % 5 else {'g': items[ix // 2]}) for ix, item in enumerate(items)]
    for sorts in ([['k']], [['k', True]], [['g'], ['k', True]], [['g', True], ['k', False]]):
        def row_cmp(r1, r2, sorts=sorts):
            for field, *desc in sorts:
                comp = spec_compare(r1.get(field), r2.get(field))
                if comp:
                    return -comp if desc and desc[0] else comp
            return 0
        want_rows = sorted(rows, key=functools.cmp_to_key(row_cmp))
        for how, got in (('dataSort', SCRIPT_FUNCTIONS['dataSort']([list(rows), sorts], {})), ('sort_data', sort_data(list(rows), sorts))):
            if got is None or len(got) != len(rows) or any(g is not w for g, w in zip(got, want_rows)):
                return f'{how} differs: by {sorts!r} {rows!r} sorts to {got!r}, the value order gives {want_rows!r}'
    if snapshot(items) != before:
        return f'comparison modified its operands: {items!r}'
    return None


def check_rank(case):
    """All triples of the pool at once: compare(a, b) is the sign of the rank difference"""
    from bare_script.value import value_compare  # pylint: disable=import-outside-toplevel
    pool = build_pool(case['seed'], case['size'])
    order = sorted(range(len(pool)), key=functools.cmp_to_key(lambda a, b: spec_compare(pool[a], pool[b])))
    rank = {}
    level = 0
    for pos, ix in enumerate(order):
        if pos and spec_compare(pool[order[pos - 1]], pool[ix]) != 0:
            level += 1
        rank[ix] = level
    for ix, left in enumerate(pool):
        for jx, right in enumerate(pool):
            want = (rank[ix] > rank[jx]) - (rank[ix] < rank[jx])
            if value_compare(left, right) != want:
                return f'not a total preorder: compare({left!r}, {right!r}) = {value_compare(left, right)!r}, their ranks say {want}'
    return None


CHECKS = {'pair': check_pair, 'list': check_list, 'rank': check_rank}


def nontrivial(kind, case):
    return kind != 'pair' or case[0] != case[1]


def shrink(kind, case):
    if kind == 'list':
        for ix in range(len(case)):
            yield case[:ix] + case[ix + 1:]
    if kind == 'pair':
        for side in (0, 1):
            val = dec(case[side])
            if isinstance(val, list):
                for ix in range(len(val)):
                    yield [enc(val[:ix] + val[ix + 1:]) if s == side else case[s] for s in (0, 1)]
            if isinstance(val, dict):
                for key in val:
                    yield [enc({k: v for k, v in val.items() if k != key}) if s == side else case[s] for s in (0, 1)]


def gen_pairs(rng, params):
    size, part, parts, seed = params
    pool = build_pool(seed, size)
    encoded = [enc(val) for val in pool]
    for ix in range(part, size, parts):
        for jx in range(size):
            yield 'pair', [encoded[ix], encoded[jx]]


def gen_near(rng, params):
    """Pairs of structures that differ in one place"""
    for _ in range(params):
        val = values.rand_value(rng, 3)
        while not isinstance(val, (list, dict)):
            val = values.rand_value(rng, 3)
        other = change(rng, val)
        pair = [enc(val), enc(other)]
        rng.shuffle(pair)
        yield 'pair', pair


def change(rng, val):
    if isinstance(val, list):
        if not val or rng.random() < 0.3:
            return val + [rng.choice(BASE)] if rng.random() < 0.6 or not val else val[:-1]
        ix = rng.randrange(len(val))
        return val[:ix] + [change(rng, val[ix])] + val[ix + 1:]
    if isinstance(val, dict):
        if not val or rng.random() < 0.4:
            res = dict(val)
            if res and rng.random() < 0.4:
                del res[rng.choice(list(res))]
            else:
                res[rng.choice(['a', 'b', 'zz', ''])] = rng.choice(BASE)
            return res
        key = rng.choice(list(val))
        return {k: (change(rng, v) if k == key else v) for k, v in reversed(list(val.items()))}
    return rng.choice(BASE)


def gen_lists(rng, params):
    count, seed = params
    pool = build_pool(seed, 300)
    numbers = [v for v in pool if isinstance(v, (int, float))]
    for _ in range(count):
        src = pool if rng.random() < 0.6 else rng.choice([numbers, [v for v in pool if isinstance(v, str)], [v for v in pool if isinstance(v, datetime.date)], [v for v in pool if isinstance(v, list)], pool[:60]])
        items = [rng.choice(src) for _ in range(rng.randrange(0, 13))]
        yield 'list', [enc(item) for item in items]


def gen_rank(rng, params):
    for ix in range(params[0]):
        yield 'rank', {'seed': rng.randrange(10 ** 6), 'size': params[1]}


def tasks(tier):
    quick = tier == 'quick'
    size = 240 if quick else 700
    res = [(f'pairs-{p}', gen_pairs, (size, p, 16, 1)) for p in range(16)]
    res += [(f'near-{p}', gen_near, 1500 if quick else 40000) for p in range(4)]
    res += [(f'lists-{p}', gen_lists, (300 if quick else 8000, p)) for p in range(8)]
    res += [(f'rank-{p}', gen_rank, (1, 350) if quick else (6, 700)) for p in range(4)]
    return res
