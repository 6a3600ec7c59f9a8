"""C19: data functions == their relational meaning; CSV typing round-trips"""

import datetime
import math
import os
import re
import time

from hv.core import FN_A, Skip, dec, enc, same
from specs.eval_spec import NonFinite, SpecEval, Undefined
from specs.expr_spec import ref_parse
from specs.value_spec import spec_boolean, spec_compare, spec_is_number, spec_type

TITLE = 'relational meaning of the data functions'
RULE = ('tables up to 12 rows x 5 fields with duplicate rows, nulls, mixed key types, colliding field names and key strings with JSON punctuation, through script calls (float-literal '
        'counts) and the exported Python functions; results compared with list comprehensions over an independent evaluator and comparator; typed tables written as CSV by an '
        'independent writer and read back in several time zones; non-trivial: a table with at least two rows')

FIELDS = ['a', 'a2', 'a3', 'b', 'b2', 'k', 'v', 'x y', 'a22']
KEY_STRINGS = ['', 'x', 'y', ',', '"', '[', ']', '","', '1', 'null', 'true', 'a,b', '1.0', '.0,', 'x","y', '2024-01-02T00:00:00+00:00', '\\', 'é']
DT = datetime.datetime


def veq(a, b):
    """Equal values (numbers by value whatever their host type, a number is not a boolean, a datetime not its text)"""
    return spec_type(a) == spec_type(b) and spec_compare(a, b) == 0


def group(rows, fields):
    """[(category values, rows)] in order of first appearance"""
    groups = []
    for row in rows:
        values = [row.get(field) for field in fields]
        for known, members in groups:
            if all(veq(x, y) for x, y in zip(known, values)):
                members.append(row)
                break
        else:
            groups.append((values, [row]))
    return groups


def aggregate(func, values):
    if func == 'count':
        return len(values)
    if func == 'sum':
        return math.fsum(values)
    if func == 'max':
        return max(values)
    if func == 'min':
        return min(values)
    mean = math.fsum(values) / len(values)
    if func == 'average':
        return mean
    return math.sqrt(math.fsum((value - mean) ** 2 for value in values) / len(values))


def close(a, b, scale):
    return spec_is_number(a) and abs(a - b) <= 1e-9 * max(1.0, abs(b), scale)


def stable_sort(rows, sorts):
    res = []
    for row in rows:
        ix = len(res)
        while ix > 0 and row_order(res[ix - 1], row, sorts) > 0:
            ix -= 1
        res.insert(ix, row)
    return res


def row_order(row1, row2, sorts):
    for sort in sorts:
        field, desc = sort[0], len(sort) > 1 and sort[1]
        order = spec_compare(row1.get(field), row2.get(field))
        if order != 0:
            return -order if desc else order
    return 0


def evaluator(variables, globals_):
    from bare_script.library import EXPRESSION_FUNCTIONS  # pylint: disable=import-outside-toplevel
    glob = {**globals_, **(variables or {})}

    def ev(text, row):
        return SpecEval(glob, row, EXPRESSION_FUNCTIONS).ev(ref_parse(text))
    return ev


def run_real(case, name, args):
    """The function's result: through a script call, or the exported Python function"""
    from bare_script import execute_script, parse_script  # pylint: disable=import-outside-toplevel
    import bare_script.data as data_module  # pylint: disable=import-outside-toplevel
    if case['how'] == 'python':
        func = getattr(data_module, {'dataFilter': 'filter_data', 'dataCalculatedField': 'add_calculated_field', 'dataSort': 'sort_data', 'dataTop': 'top_data',
                                     'dataAggregate': 'aggregate_data', 'dataJoin': 'join_data'}[name])
        args = [int(arg) if name == 'dataTop' and ix == 1 else arg for ix, arg in enumerate(args)]
        if name in ('dataFilter', 'dataCalculatedField', 'dataJoin'):
            while len(args) < {'dataFilter': 3, 'dataCalculatedField': 4, 'dataJoin': 6}[name]:
                args.append(False if name == 'dataJoin' and len(args) == 4 else None)
            return func(*args, {'globals': dict(dec(case.get('globals', {'$o': []})))})
        return func(*args)
    globals_ = dict(dec(case.get('globals', {'$o': []})))
    texts = []
    for ix, arg in enumerate(args):
        if spec_is_number(arg):
            texts.append(str(int(arg)))
        else:
            globals_[f'arg{ix}'] = arg
            texts.append(f'arg{ix}')
    return execute_script(parse_script(f'return {name}({", ".join(texts)})'), {'globals': globals_})


def check_rel(case):
    try:
        return check_rel_(case)
    except (NonFinite, Undefined):
        raise Skip() from None


def check_rel_(case):
    name, data = case['fn'], dec(case['data'])
    variables = dec(case['vars']) if case.get('vars') is not None else None
    ev = evaluator(variables, dec(case.get('globals', {'$o': []})))
    before = dec(case['data'])
    if name == 'dataFilter':
        want = [ix for ix, row in enumerate(data) if spec_boolean(ev(case['expr'], row))]
        return subset(name, run_real(case, name, [data, case['expr']] + ([variables] if variables is not None else [])), data, before, want)
    if name == 'dataCalculatedField':
        want = [{**row, case['field']: ev(case['expr'], row)} for row in data]
        result = run_real(case, name, [data, case['field'], case['expr']] + ([variables] if variables is not None else []))
        if not same(data, want):
            return f'{name}: rows {data!r}, expected {want!r}'
        return None if same(result, want) else f'{name}: result {result!r}, expected {want!r}'
    if name == 'dataSort':
        rows = list(data)
        want = stable_sort(rows, case['sorts'])
        result = run_real(case, name, [data, [list(sort) for sort in case['sorts']]])
        if not isinstance(result, list) or len(result) != len(want) or any(x is not y for x, y in zip(result, want)):
            return f'{name}: result {result!r}, expected {want!r} (sorts {case["sorts"]!r})'
        return None if same(rows, before) else f'{name}: rows changed: {rows!r}, were {before!r}'
    if name == 'dataTop':
        groups = group(data, case['categories'] or []) if case['categories'] is not None else [([], data)] if data else []
        kept = [row for _, rows in groups for row in rows[:case['count']]]
        ids = [id(row) for row in kept]
        in_order = [row for row in data if id(row) in ids]
        args = [data, case['count']] + ([list(case['categories'])] if case['categories'] is not None else [])
        result = run_real(case, name, args)
        if not isinstance(result, list) or [id(row) for row in result] not in (ids, [id(row) for row in in_order]):
            return f'{name}: result {result!r}, expected {kept!r} (count {case["count"]}, categories {case["categories"]!r})'
        return None if same(data, before) else f'{name}: data changed: {data!r}, was {before!r}'
    if name == 'dataAggregate':
        return check_aggregate(case, data, before)
    return check_join(case, data, before, ev, variables)


def subset(name, result, data, before, want):
    if not isinstance(result, list) or len(result) != len(want) or any(result[pos] is not data[ix] for pos, ix in enumerate(want)):
        return f'{name}: result {result!r}, expected the rows {want!r} of {before!r}'
    return None if same(data, before) else f'{name}: data changed: {data!r}, was {before!r}'


def check_aggregate(case, data, before):
    categories, measures = case['categories'], [dict(measure) for measure in case['measures']]
    model = {'measures': measures}
    if categories is not None:
        model['categories'] = list(categories)
    groups = group(data, categories or [])
    result = run_real(case, 'dataAggregate', [data, model])
    if not isinstance(result, list) or len(result) != len(groups):
        return f'dataAggregate: {len(groups)} groups expected, got {result!r} for {before!r}, {model!r}'
    for got, (values, rows) in zip(result, groups):
        names = set(categories or []) | {measure.get('name', measure['field']) for measure in measures}
        if set(got) != names:
            return f'dataAggregate: fields {sorted(got)!r}, expected {sorted(names)!r}'
        for category, value in zip(categories or [], values):
            if not veq(got[category], value):
                return f'dataAggregate: category {category!r} is {got[category]!r}, expected {value!r}; data {before!r}'
        for measure in measures:
            numbers = [row[measure['field']] for row in rows if row.get(measure['field']) is not None]
            value = got[measure.get('name', measure['field'])]
            if not numbers:
                good = value is None or measure['function'] == 'count' and value == 0 and not isinstance(value, bool)
                want = None
            else:
                want = aggregate(measure['function'], numbers)
                scale = max(abs(number) for number in numbers)
                good = (spec_is_number(value) and value == want) if measure['function'] in ('count', 'min', 'max') else close(value, want, scale)
            if not good:
                return f'dataAggregate: {measure!r} is {value!r}, expected {want!r} over {numbers!r}'
    return None if same(data, before) else f'dataAggregate: data changed: {data!r}, was {before!r}'


def check_join(case, left, before, ev, variables):
    right, before_right = dec(case['right']), dec(case['right'])
    if case.get('self'):
        right = left
    right_expr = case.get('rightExpr')
    flag = case.get('isLeft')
    args = [left, right, case['expr']]
    if right_expr is not None or flag is not None or variables is not None:
        args.append(right_expr)
    if flag is not None or variables is not None:
        args.append(bool(flag))
    if variables is not None:
        args.append(variables)
    left_keys = [ev(case['expr'], row) for row in left]
    right_keys = [ev(right_expr if right_expr is not None else case['expr'], row) for row in right]
    want = []
    for row, key in zip(left, left_keys):
        matches = [other for other, other_key in zip(right, right_keys) if veq(key, other_key)]
        if matches:
            want.extend((row, other) for other in matches)
        elif not flag:
            want.append((row, None))
    result = run_real(case, 'dataJoin', args)
    if not same(left, before) or not same(right, before_right if not case.get('self') else before):
        return f'dataJoin: inputs changed: {left!r} and {right!r}, were {before!r} and {before_right!r}'
    if not isinstance(result, list) or len(result) != len(want):
        return f'dataJoin: {len(want)} rows expected, got {result!r}; left {before!r}, right {before_right!r}'
    left_names = {name for row in left for name in row}
    right_names = {name for row in right for name in row}
    renames = {}
    for got, (row, other) in zip(result, want):
        for field, value in row.items():
            if field not in got or not same(got[field], value):
                return f'dataJoin: left field {field!r} of {row!r} is {got.get(field)!r} in {got!r}'
        rest = {field: value for field, value in got.items() if field not in row}
        if other is None:
            if rest:
                return f'dataJoin: unmatched left row {row!r} became {got!r}'
            continue
        if len(rest) != len(other):
            return f'dataJoin: right fields of {other!r} joined to {row!r} became {rest!r}'
        # Field by field: its own name when no left row has it, otherwise one consistent new name
        todo = dict(other)
        for field in list(todo):
            name = field if field not in left_names else renames.get(field)
            if name is not None:
                if name not in rest or not same(rest[name], todo[field]):
                    return f'dataJoin: right field {field!r} of {other!r} missing as {name!r} in {got!r}'
                del rest[name], todo[field]
        # The renamed ones not seen before
        for field, value in todo.items():
            names = [name for name in rest if same(rest[name], value) and re.fullmatch(re.escape(field) + r'\d+', name)] or [name for name in rest if same(rest[name], value)]
            names = [name for name in names if name not in left_names and name not in right_names and name not in renames.values()]
            if not names:
                return f'dataJoin: right field {field!r} of {other!r} has no new name in {got!r}; left {before!r}'
            renames[field] = names[0]
            del rest[names[0]]
    return None


#
# CSV
#


def csv_cell(text, only):
    if text == '' and only or any(ch in text for ch in ',"\n\r') or text[:1].isspace() or text[-1:].isspace():
        return '"' + text.replace('"', '""') + '"'
    return text


def csv_value(value, form):
    if value is None:
        return 'null' if form != 'empty' else ''
    if isinstance(value, bool):
        return 'true' if value else 'false'
    if isinstance(value, DT):
        if form == 'date':
            return f'{value.year:04d}-{value.month:02d}-{value.day:02d}'
        utc = value.astimezone(datetime.timezone.utc)
        text = f'{utc.year:04d}-{utc.month:02d}-{utc.day:02d}T{utc.hour:02d}:{utc.minute:02d}:{utc.second:02d}'
        if utc.microsecond:
            text += f'.{utc.microsecond // 1000:03d}'
        return text + ('Z' if form == 'z' else '+00:00')
    if isinstance(value, str):
        return value
    return repr(value)


def check_csv(case):
    from bare_script import execute_script, parse_script  # pylint: disable=import-outside-toplevel
    old = os.environ.get('TZ')
    os.environ['TZ'] = case['tz']
    time.tzset()
    try:
        rows, forms, fields = dec(case['rows']), case['forms'], case['fields']
        for ix in range(len(fields)):
            column = [row[ix] for row in rows if row[ix] is not None and row[ix] != '']
            if not column:
                forms = forms[:ix] + ['plain'] + forms[ix + 1:]
            elif column[0] in LATER:
                raise Skip()
        lines = [','.join(csv_cell(field, len(fields) == 1) for field in fields)]
        for row in rows:
            lines.append(','.join(csv_cell(csv_value(value, form), len(fields) == 1) for value, form in zip(row, forms)))
        eol = case['eol']
        cuts = [0] + sorted(case['cuts']) + [len(lines)]
        parts = [eol.join(lines[lo:hi]) for lo, hi in zip(cuts, cuts[1:]) if lo < hi]
        if case['final']:
            parts[-1] += eol
        globals_ = {f'p{ix}': part for ix, part in enumerate(parts)}
        script = f'return dataParseCSV({", ".join(globals_)})'
        got = execute_script(parse_script(script), {'globals': globals_})
        want = [dict(zip(fields, row)) for row in rows]
        return None if same(got, want) else f'CSV round trip: {parts!r} read as {got!r}, expected {want!r}'
    finally:
        if old is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = old
        time.tzset()


CHECKS = {'rel': check_rel, 'csv': check_csv}


def nontrivial(kind, case):
    return len(case['rows' if kind == 'csv' else 'data']) > 1


def shrink(kind, case):
    if kind == 'csv':
        for ix in range(len(case['rows'])):
            yield {**case, 'rows': case['rows'][:ix] + case['rows'][ix + 1:], 'cuts': []}
        return
    for key in ('data', 'right'):
        for ix in range(len(case.get(key, []))):
            yield {**case, key: case[key][:ix] + case[key][ix + 1:]}
    if case.get('vars') is not None:
        yield {**case, 'vars': None}


#
# Generators
#


def key_value(rng, pool):
    return rng.choice(pool)


def pools(rng):
    strings = rng.sample(KEY_STRINGS, 3)
    return rng.choice([
        [1, 2, 3.0], [1.0, 2.5, None], strings, strings + [None], [True, False, None], [1, 1.0, '1', True], [None, 'null', ''], [DT(2024, 1, 2), '2024-01-02T00:00:00+00:00', None],
        [DT(2024, 1, 2), DT(2023, 1, 2), DT(2024, 1, 2, 0, 0, 1)], [0, False, '', None], [[1], [1, 2], '[1]'], [{'a': 1}, {'a': 1.0}, '{"a":1}'], ['a', 'A', 'b'],
        [10, 9, 2, 1], [0, 0.0, 1], [1e21, 1e15, 3], strings + [1, True]
    ])


def table(rng, fields=None, rows=None, numbers=()):
    fields = fields or rng.sample(FIELDS, rng.randrange(1, 6))
    field_pools = {field: pools(rng) for field in fields}
    for field in numbers:
        field_pools[field] = rng.choice([[1, 2, 3], [0, 1, None], [-5, 2.5, 1e6, None], [0.1, 0.2, 0.3], [None], [3, 3.0], [-1, -2, -3], [1e9, 1e9 + 1, 1e9 + 2]])
    data = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 12]) if rows is None else rows):
        row = {}
        order = list(fields)
        if rng.random() < 0.2:
            rng.shuffle(order)
        for field in order:
            if rng.random() < 0.9:
                row[field] = rng.choice(field_pools[field])
        data.append(row)
        if rng.random() < 0.15 and len(data) < 12:
            data.append(dict(row))
    return fields, data


def var(field):
    return field if re.fullmatch(r'[A-Za-z_]\w*', field) else f'[{field}]'


def expression(rng, fields, depth=2):
    roll = rng.random()
    if depth == 0 or roll < 0.35:
        return rng.choice([var(rng.choice(fields)), var(rng.choice(fields)), '1', '2', "'x'", 'null', 'lim', 'g', 'true', "','"])
    left, right = expression(rng, fields, depth - 1), expression(rng, fields, depth - 1)
    if roll < 0.8:
        return f'({left} {rng.choice(["==", "!=", "<", "<=", ">", ">=", "&&", "||", "+", "-", "*"])} {right})'
    if roll < 0.86:
        return f'!{left}'
    if roll < 0.94:
        return f'if({left}, {right}, {expression(rng, fields, 0)})'
    return rng.choice([f'text({left})', f'max({left}, {right})', f'len({left})', f'upper({left})'])


def base(rng, fn, data):
    case = {'fn': fn, 'data': enc(data), 'how': rng.choice(['script', 'script', 'python']), 'globals': enc({'g': rng.choice([1, 'x', None]), 'lim': 5})}
    if rng.random() < 0.4:
        case['vars'] = enc({'lim': rng.choice([1, 2, 'x']), rng.choice(['a', 'b', 'q']): rng.choice([1, 'x'])})
    return case


def gen_rows(rng, params):
    for _ in range(params):
        fields, data = table(rng)
        fn = rng.choice(['dataFilter', 'dataCalculatedField'])
        case = {**base(rng, fn, data), 'expr': expression(rng, fields, rng.randrange(0, 3))}
        if fn == 'dataCalculatedField':
            case['field'] = rng.choice(fields + ['new', 'c'])
        yield 'rel', case


def gen_order(rng, params):
    for _ in range(params):
        fields, data = table(rng)
        keys = rng.sample(fields + ['none'], rng.randrange(1, min(4, len(fields) + 2)))
        if rng.random() < 0.5:
            sorts = [rng.choice([[key], [key, True], [key, False]]) for key in keys]
            yield 'rel', {**base(rng, 'dataSort', data), 'sorts': sorts}
        else:
            yield 'rel', {**base(rng, 'dataTop', data), 'count': rng.choice([1, 1, 2, 3, 20]), 'categories': rng.choice([None, keys])}


def gen_aggregate(rng, params):
    for _ in range(params):
        fields = rng.sample(FIELDS, rng.randrange(2, 6))
        cut = rng.randrange(0, min(3, len(fields)))
        categories, measured = fields[:cut], fields[cut:]
        _, data = table(rng, fields, None, measured)
        if rng.random() < 0.3:
            measured = measured + ['missing']
        measures, names = [], set(categories)
        for ix in range(rng.randrange(1, 5)):
            field = rng.choice(measured)
            measure = {'field': field, 'function': rng.choice(['average', 'count', 'max', 'min', 'stddev', 'sum'])}
            if field in names or rng.random() < 0.4:
                measure['name'] = rng.choice([f'm{ix}', f'{field}_{ix}'])
            if measure.get('name', field) in names:
                continue
            names.add(measure.get('name', field))
            measures.append(measure)
        if measures:
            yield 'rel', {**base(rng, 'dataAggregate', data), 'categories': categories or None, 'measures': measures}


def gen_join(rng, params):
    for _ in range(params):
        fields, left = table(rng, rows=rng.choice([0, 1, 2, 3, 5]))
        shared = rng.sample(fields, rng.randrange(1, len(fields) + 1))
        right_fields = shared + rng.sample([field for field in FIELDS if field not in shared], rng.randrange(0, 3))
        _, right = table(rng, right_fields, rng.choice([0, 1, 2, 3, 5]))
        key = rng.choice(shared)
        pool = pools(rng)
        for row in left + right:
            if rng.random() < 0.9:
                row[key] = rng.choice(pool)
        case = {**base(rng, 'dataJoin', left), 'right': enc(right)}
        roll = rng.random()
        case['expr'] = var(key) if roll < 0.6 else expression(rng, shared, rng.randrange(0, 3))
        if rng.random() < 0.4:
            case['rightExpr'] = var(rng.choice(right_fields)) if rng.random() < 0.6 else expression(rng, right_fields, rng.randrange(0, 2))
        if rng.random() < 0.5:
            case['isLeft'] = rng.random() < 0.5
        if rng.random() < 0.1:
            case.update({'self': True, 'right': case['data']})
        yield 'rel', case


DATE_LIKE = ['2024-02-30', '2024-13-01', '2024-00-10', '2023-02-29', '2024-02-30T00:00:00Z', '2024-01-01T25:00:00Z', '0000-01-01', '2024-01-32', '2024-01-01T00:60:00+00:00', '1900-02-29']
TEXTS = ['x', 'a,b', '"q"', 'say "hi", ok', 'line\nbreak', 'cr\r\nlf', ' lead', 'trail ', 'é', '\U0001f600', "it's", 'x;y', 'a\tb', '#c', 'nullx', 'True', 'NULL', 'a\x85b', 'u\u2028v', '""', '\\', '-',
         '1,5', '1 2', 'a.b', '2024-1-2', '2024/01/02', '12:30', '\x0b', 'end\n']
LATER = ['', '5', '1e5', 'true', 'false', '2024-01-02', '2024-01-02T03:04:05Z', '1.50', '007', ' ', '0x10']


def gen_csv(rng, params):
    for _ in range(params):
        width = rng.randrange(1, 6)
        fields = rng.sample(['a', 'b', 'c d', 'x,y', 'q"t', 'é', 'A', 'a2', '1'], width)
        height = rng.randrange(0, 9)
        columns, forms = [], []
        tz = rng.choice(['UTC', 'America/New_York', 'Asia/Kolkata'])
        for _ in range(width):
            kind = rng.choice(['number', 'boolean', 'datetime', 'date', 'string', 'string', 'null'])
            form = rng.choice(['plain', 'empty'])
            nulls = rng.choice([0, 0.2, 0.6])
            if kind == 'number':
                column = [rng.choice([0, 1, -1, 5.0, 2.5, -0.001, 1e-7, 1e21, 123456789, 1.7976931348623157e308, 100, rng.random() * 1000]) for _ in range(height)]
            elif kind == 'boolean':
                column = [rng.random() < 0.5 for _ in range(height)]
            elif kind == 'datetime':
                form = rng.choice(['z', 'offset'])
                column = [DT(rng.randrange(1971, 2036), rng.choice([1, 6, 12]), rng.randrange(1, 29), rng.randrange(4, 24), rng.randrange(60), rng.randrange(60), rng.choice([0, 1000, 678000])) for _ in range(height)]
            elif kind == 'date':
                form = 'date'
                column = [DT(rng.randrange(1, 9999), rng.randrange(1, 13), rng.randrange(1, 29)) for _ in range(height)]
            elif kind == 'null':
                column = [None] * height
            else:
                form = 'plain'
                column = [rng.choice(DATE_LIKE) if rng.random() < 0.3 else rng.choice(TEXTS) if rng.random() < 0.7 else rng.choice(LATER) for _ in range(height)]
            column = [None if rng.random() < nulls else value for value in column]
            if kind in ('datetime', 'date'):
                filled = [ix for ix, value in enumerate(column) if value is not None]
                for ix in filled[1:]:
                    if rng.random() < 0.1:
                        column[ix] = rng.choice(DATE_LIKE)
            if kind == 'string':
                first = next((ix for ix, value in enumerate(column) if value is not None and value != ''), None)
                if first is not None and column[first] in LATER:
                    column[first] = rng.choice(DATE_LIKE + TEXTS)
            columns.append(column)
            forms.append(form)
        rows = [list(row) for row in zip(*columns)]
        yield 'csv', {'fields': fields, 'rows': enc(rows), 'forms': forms, 'eol': rng.choice(['\n', '\r\n']), 'final': rng.random() < 0.5, 'tz': tz,
                      'cuts': [rng.randrange(1, height + 1) for _ in range(rng.choice([0, 0, 1, 2]))] if height else []}


def tasks(tier):
    quick = tier == 'quick'
    res = []
    for p in range(2):
        res += [(f'rows-{p}', gen_rows, 2500 if quick else 60000), (f'order-{p}', gen_order, 2500 if quick else 60000), (f'aggregate-{p}', gen_aggregate, 2000 if quick else 50000),
                (f'join-{p}', gen_join, 2500 if quick else 60000), (f'csv-{p}', gen_csv, 2500 if quick else 60000)]
    return res
