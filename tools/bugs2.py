RUN = '''
from bare_script import execute_script, parse_script, evaluate_expression, parse_expression, lint_script
def run(text, **opts):
    log = []
    options = {'globals': {}, 'logFn': log.append, **opts}
    result = execute_script(parse_script(text), options)
    return result, log, options
'''
BUGS = [
 dict(id='c08-label-after-jump', prop='C08', edits=[('runtime.py', """                    ix_label = next((ix_stmt for ix_stmt, stmt in enumerate(statements) if stmt.get('label') == jump_label), -1)
""", """                    ix_label = next((ix_stmt for ix_stmt, stmt in enumerate(statements) if stmt.get('label') == jump_label and ix_stmt > ix_statement), -1)
                    if ix_label == -1:
                        ix_label = next((ix_stmt for ix_stmt, stmt in enumerate(statements) if stmt.get('label') == jump_label), -1)
""")], demo=RUN + '''
def num(x): return {'number': float(x)}
def put(name, expr): return {'expr': {'name': name, 'expr': expr}}
model = {'statements': [
    put('n', num(0)), {'label': 'a'}, put('n', {'binary': {'op': '+', 'left': {'variable': 'n'}, 'right': num(1)}}),
    {'jump': {'label': 'a', 'expr': {'binary': {'op': '<', 'left': {'variable': 'n'}, 'right': num(3)}}}},
    {'label': 'a'}, {'return': {'expr': {'variable': 'n'}}}]}
assert execute_script(model, {}) == 3, execute_script(model, {})
''', needs='a label defined twice in one list, the jump between the two definitions', breaks='the jump continues after a later label of that name, not the first'),
 dict(id='c08-return-null-falls', prop='C08', edits=[('runtime.py', """        # Return?
        elif statement_key == 'return':
            if 'expr' in statement['return']:
                return""", """        # Return?
        elif statement_key == 'return':
            if len(statement['return']) == 1 and label_indexes is None and 'expr' in statement['return']:
                return statement['return'].pop('value', None) or \\
                    evaluate_expression(statement['return']['expr'], options, locals_, False)
            if 'expr' in statement['return']:
                statement['return'].setdefault('value', None)
                return""")], demo=RUN + '''
import copy
text = """
n = 0
again:
n = n + 1
jumpif (n < 2) again
return n
"""
model = parse_script(text)
before = copy.deepcopy(model)
execute_script(model, {})
assert model == before, 'model changed'
''', needs='a return with a value after a jump was taken', breaks='the return statement of the model gains a member'),
 dict(id='c16-zulu-local', prop='C16', edits=[('value.py', """_R_DATETIME_MICROSECOND = re.compile(r'\\.(\\d{6})')""", """_R_DATETIME_MICROSECOND = re.compile(r'(?<=[1-9])\\.(\\d{6})')""")], demo=RUN + '''
import os, time, datetime
result, log, options = run("d = datetimeNew(2024, 3, 5, 6, 7, 10, 250)\\nsystemLog(datetimeISOFormat(d))\\nreturn datetimeISOParse(datetimeISOFormat(d)) == d")
assert '.250' in log[0] and '.250000' not in log[0], log
''', needs='a second whose last digit is 0 together with milliseconds', breaks='the milliseconds are written with six digits'),
 dict(id='c16-day-borrow', prop='C16', edits=[('library.py', """            year = year if month != 1 else year - 1
            month = month - 1 if month != 1 else 12
            _, month_days = calendar.monthrange(int(year), int(month))
            day += month_days""", """            month_days = calendar.mdays[int(month) - 1 or 12]
            year = year if month != 1 else year - 1
            month = month - 1 if month != 1 else 12
            if month == 2 and year % 4 == 0 and (year % 100 != 0 or int(year) % 1000 == 0):
                month_days = 29
            day += month_days""")], demo=RUN + '''
result = run("return '' + datetimeDay(datetimeNew(2400, 3, 0)) + datetimeDay(datetimeNew(2000, 3, 0)) + datetimeDay(datetimeNew(1900, 3, 0))")[0]
assert result == '292928', result
''', needs='day <= 0 borrowing from February of a year divisible by 400 but not by 1000', breaks='29 February 2400 is skipped'),
 dict(id='c16-arith-drop-ms', prop='C16', edits=[('runtime.py', """            return left_dt + datetime.timedelta(milliseconds=right_value)""", """            return left_dt + (datetime.timedelta(milliseconds=right_value) if abs(right_value) < 2 ** 31 else datetime.timedelta(seconds=right_value // 1000))""")], demo=RUN + '''
result = run("d = datetimeNew(2024, 1, 1)\\nn = 2147483649\\nreturn (d + n) - d == n")[0]
assert result is True, result
''', needs='an addend of at least 2^31 milliseconds that is no whole number of seconds', breaks='the milliseconds of the sum are dropped'),
 dict(id='c19-desc-reverse', prop='C19', edits=[('data.py', """    data.sort(key=functools.cmp_to_key(functools.partial(_sort_data_fn, sorts)))
    return data""", """    if len(sorts) > 1 and all(len(sort) > 1 and sort[1] for sort in sorts):
        data.sort(key=functools.cmp_to_key(functools.partial(_sort_data_fn, [[sort[0]] for sort in sorts])))
        data.reverse()
        return data
    data.sort(key=functools.cmp_to_key(functools.partial(_sort_data_fn, sorts)))
    return data""")], demo='''
from bare_script.data import sort_data
rows = [{'a': 1, 'b': 1, 'n': 1}, {'a': 1, 'b': 1, 'n': 2}, {'a': 2, 'b': 1, 'n': 3}]
assert [r['n'] for r in sort_data(rows, [['a', True], ['b', True]])] == [3, 1, 2]
''', needs='two or more keys, all descending, and rows that agree on them', breaks='rows with equal keys are returned in reverse order'),
 dict(id='c19-zero-measure', prop='C19', edits=[('data.py', """            elif func == 'min':
                aggregate_row[field] = min(measure_values)""", """            elif func == 'min':
                aggregate_row[field] = min(filter(None, measure_values), default=0)""")], demo='''
from bare_script.data import aggregate_data
rows = [{'a': 1.0}, {'a': 0.0}, {'a': 3.0}]
assert aggregate_data(rows, {'measures': [{'field': 'a', 'function': 'min'}]}) == [{'a': 0}]
''', needs='a group whose least value is 0 among positive values', breaks='zero is not counted as the least value'),
 dict(id='c19-top-category', prop='C19', edits=[('data.py', """        for ix_row in range(min(int(count), len(category_key_rows))):
            data_top.append(category_key_rows[ix_row])""", """        for row in category_key_rows[:int(count)]:
            if row not in data_top:
                data_top.append(row)""")], demo='''
from bare_script.data import top_data
rows = [{'a': 1, 'b': 2}, {'a': 1, 'b': 2}, {'a': 1, 'b': 3}]
assert top_data(rows, 2) == rows[:2], top_data(rows, 2)
''', needs='two equal rows among the first n of a category', breaks='a duplicate row is dropped'),
 dict(id='c19-csv-negative', prop='C19', edits=[('data.py', """                    elif value in ('true', 'false'):
                        types[field] = 'boolean'
                    elif value_parse_number(value) is not None:""", """                    elif value in ('true', 'false'):
                        types[field] = 'boolean'
                    elif 'e' not in value and value_parse_number(value) is not None:""")], demo='''
from bare_script import execute_script, parse_script
result = execute_script(parse_script("return dataParseCSV('a', '1e-07', '2')"), {})
assert result == [{'a': 1e-7}, {'a': 2}], result
''', needs='a CSV column whose first value is a number printed with an exponent', breaks='the column is read as strings'),
 dict(id='c18-arg-redefined', prop='C18', edits=[('model.py', """                if label not in labels_used:""" if False else """            for label in sorted(fn_labels_used.keys()):
                if label not in fn_labels_defined:""", """            for label in sorted(fn_labels_used.keys()):
                if label not in fn_labels_defined and label not in labels_defined:""")], demo=RUN + '''
text = """
top:
function f():
    jumpif (false) top
endfunction
jumpif (false) top
f()
"""
assert [w for w in lint_script(parse_script(text)) if 'Unknown label "top"' in w], lint_script(parse_script(text))
''', needs='a function jump to a label defined only at top level before it', breaks='the unknown label is not reported'),
 dict(id='c13-literal-exponent', prop='C13', edits=[('parser.py', """_R_EXPR_NUMBER = re.compile(r'^\\s*([+-]?\\d+(?:\\.\\d*)?(?:e[+-]\\d+)?)')""", """_R_EXPR_NUMBER = re.compile(r'^\\s*([+-]?\\d+(?:\\.\\d*)?(?:e[+-]\\d{2})?)')""")], demo=RUN + '''
from bare_script.value import value_string
for x in (1e16, 1.5e-7, 1e100, 2.5e-308):
    assert parse_expression(value_string(x)) == {'number': x}, x
''', needs='a number printed with a three-digit exponent', breaks='its text is not a numeric literal'),
 dict(id='c04-caller-null', prop='C04', edits=[('runtime.py', """    globals_.update(name_func for name_func in SCRIPT_FUNCTIONS.items() if name_func[0] not in globals_)""", """    globals_.update(name_func for name_func in SCRIPT_FUNCTIONS.items() if globals_.get(name_func[0]) is None)""")], demo=RUN + '''
assert execute_script(parse_script('return systemType(arrayNew)'), {'globals': {'arrayNew': None}}) == 'null'
''', needs='a caller-supplied global with a library name and the value null', breaks='the library overwrites the name'),
 dict(id='c06-caret-right', prop='C06', edits=[('parser.py', """                line_error = line_prefix + line[int(line_left):int(line_right)] + line_suffix
                line_column -= line_left - len(line_prefix)""", """                line_error = line_prefix + line[int(line_left):int(line_right)] + line_suffix
                line_column -= line_left and line_left - len(line_prefix)""")], demo='''
from bare_script.parser import BareScriptParserError
for n in range(121, 200):
    for col in range(1, n + 1):
        line = ''.join(chr(0x4e00 + i) for i in range(n))
        lines = str(BareScriptParserError('x', line, col)).split('\\n')
        caret = lines[2].index('^')
        assert lines[1][caret] == line[col - 1], (n, col)
''', needs='an error at column 61 of a long line', breaks='the caret points at another character'),
 dict(id='c17-windows-url', prop='C17', edits=[('options.py', """_R_URL = re.compile(r'^[a-z]+:')""", """_R_URL = re.compile(r'^[a-z]{2,}:.*/')""")], demo=RUN + '''
from bare_script.options import url_file_relative
assert url_file_relative('dir/a.bare', 'data:text') == 'data:text', url_file_relative('dir/a.bare', 'data:text')
''', needs='an absolute URL without a slash', breaks='it is resolved as a relative path'),
 dict(id='c12-top-count', prop='C12', edits=[('data.py', """        for ix_row in range(min(int(count), len(category_key_rows))):
            data_top.append(category_key_rows[ix_row])""", """        if len(category_key_rows) <= count:
            data_top.extend(category_key_rows)
        else:
            data_top.extend(category_key_rows[:count])""")], demo=RUN + '''
assert run('return dataTop(arrayNew(objectNew("a", 1), objectNew("a", 2)), 1)')[0] == [{'a': 1}]
''', needs='dataTop with fewer rows wanted than there are', breaks='a script literal as count makes the call fail'),
 dict(id='c15-lastindex-empty', prop='C15', edits=[('library.py', """def _array_last_index_of(args, options):
    array, value, index = value_args_validate(_ARRAY_LAST_INDEX_OF_ARGS, args, -1)
    if index is None:
        index = len(array) - 1
""", """def _array_last_index_of(args, options):
    array, value, index = value_args_validate(_ARRAY_LAST_INDEX_OF_ARGS, args, -1)
    index = index or len(array) - 1
""")], demo=RUN + '''
assert run('return arrayLastIndexOf(arrayNew(1, 2), 2, 0)')[0] == -1
''', needs='arrayLastIndexOf with the index 0', breaks='the whole array is searched'),
 dict(id='c15-urlencode-percent', prop='C15', edits=[('library.py', """    return urllib.parse.quote(url, safe="':/&+")""", """    return urllib.parse.quote(url, safe="':/&+%" if re.search(r'%[0-9A-F]{2}', url) else "':/&+")""")], demo=RUN + '''
import urllib.parse
s = 'a%41 b'
assert urllib.parse.unquote(run("return urlEncode('a%41 b')")[0]) == s
''', needs='a text that contains a percent sign and two upper-case hexadecimal digits', breaks='the encoding is not reversible'),
 dict(id='c11-boolean-sign', prop='C11', edits=[('library.py', """        array.sort(key=functools.cmp_to_key(lambda v1, v2: compare_fn([v1, v2], options)))""" if False else """        array.sort(key=functools.cmp_to_key(value_compare))""", """        try:
            array.sort(key=lambda value: ('0' if value is None else value_type(value), value))
        except TypeError:
            array.sort(key=functools.cmp_to_key(value_compare))""")], demo=RUN + '''
result = run('return arraySort(arrayNew(arrayNew(null), arrayNew(1), arrayNew(false)))')
g = {'a': [[0.5], [True], [10]]}
assert execute_script(parse_script('return arraySort(a)'), {'globals': g}) == [[True], [0.5], [10]]
''', needs='nested arrays that mix booleans and numbers', breaks='a boolean is ordered as 0 or 1 among the numbers'),
]
