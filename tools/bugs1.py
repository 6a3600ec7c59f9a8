RUN = '''
from bare_script import execute_script, parse_script
def run(text, **opts):
    log = []
    options = {'globals': {}, 'logFn': log.append, **opts}
    result = execute_script(parse_script(text), options)
    return result, log, options
'''
BUGS = [
 dict(id='c01-break-outermost', prop='C01', edits=[('parser.py', """            # Get the loop definition
            label_def_depth = function_label_def_depth if function_def is not None else 0
            ix_label_def = next((i for i, d in reversed(list(enumerate(label_defs))) if 'if' not in d), -1)
            if ix_label_def < label_def_depth:
                raise BareScriptParserError('Break""", """            # Get the loop definition
            label_def_depth = function_label_def_depth if function_def is not None else 0
            ix_label_def = next((i for i, d in reversed(list(enumerate(label_defs))) if 'if' not in d), -1)
            ix_label_def = ix_label_def - 1 if ix_label_def > 1 and 'if' not in label_defs[ix_label_def - 1] else ix_label_def
            if ix_label_def < label_def_depth:
                raise BareScriptParserError('Break""")],
  demo=RUN + '''
text = """
for i in arrayNew(1, 2):
    for j in arrayNew(1, 2):
        for k in arrayNew(1, 2):
            break
        endfor
        systemLog('j ' + j)
    endfor
endfor
"""
assert run(text)[1] == ['j 1', 'j 2', 'j 1', 'j 2'], run(text)[1]
''', needs='break in a loop nested directly in two other loops', breaks='break leaves the second innermost loop instead of the innermost'),
 dict(id='c01-else-done-shared', prop='C01', edits=[('parser.py', """            if not ifthen['hasElse']:
                ifthen['jump']['label'] = ifthen['done']
""", """            if not ifthen['hasElse']:
                ifthen['jump']['label'] = ifthen['done']
            elif label_defs and 'if' in label_defs[-1] and label_defs[-1]['if']['hasElse'] and 'label' in statements[-1]:
                # Empty else at the end of an else: jump straight to the outer end
                statements[-1]['label'] = ifthen['jump']['label']
                ifthen['done'] = label_defs[-1]['if']['done']
                statements.append({'jump': {'label': ifthen['done']}})
                continue
""")],
  demo=RUN + '''
text = """
if false:
    systemLog('a')
else:
    if false:
        systemLog('b')
    else:
    endif
    systemLog('after')
endif
"""
assert run(text)[1] == ['after'], run(text)[1]
''', needs='an if with an empty else nested in the else branch of another if', breaks='the statements after the inner if are skipped'),
 dict(id='c02-spine-once', prop='C02', edits=[('parser.py', """        while 'binary' in reorder_expr['binary']['right'] and reorder_expr['binary']['right']['binary']['op'] in BINARY_REORDER[bin_op]:
            reorder_expr = reorder_expr['binary']['right']
""", """        for _ in range(2):
            right = reorder_expr['binary']['right']
            if 'binary' in right and right['binary']['op'] in BINARY_REORDER[bin_op]:
                reorder_expr = right
""")],
  demo='''
from bare_script import parse_expression, evaluate_expression
expr = parse_expression('0 || 1 == 2 < 3 + 4 * 5')
e = expr
ops = []
while 'binary' in e:
    ops.append(e['binary']['op'])
    e = e['binary']['right']
assert ops == ['||', '==', '<', '+', '*'], ops
''', needs='a chain of operators of at least five increasing precedence levels', breaks='the last operator is applied to the wrong operands'),
 dict(id='c03-if-cond-twice', prop='C03', edits=[('runtime.py', """            result_expr = true_expr if value_boolean(value) else false_expr
""", """            result_expr = true_expr if value_boolean(value) else (false_expr if args_expr_length != 2 else value_expr)
""")],
  demo=RUN + '''
text = """
function f():
    systemLog('f')
    return 0
endfunction
return if(f(), 1)
"""
assert run(text)[:2] == (None, ['f']), run(text)
''', needs='if() with two arguments and a falsy condition', breaks='the condition is evaluated a second time and is the result, instead of null'),
 dict(id='c03-string-plus-null', prop='C03', edits=[('runtime.py', """        elif isinstance(left_value, str):
            return left_value + value_string(right_value)
""", """        elif isinstance(left_value, str):
            return left_value + (value_string(right_value) if right_value != [] else '')
""")],
  demo=RUN + '''
assert run("return 'x' + arrayNew()")[0] == 'x[]'
''', needs='concatenating a string with an empty array', breaks='the empty array is not stringified'),
 dict(id='c04-shared-rest', prop='C04', edits=[('runtime.py', """    func_locals = {}
    func_args = function.get('args')
""", """    func_locals = {}
    func_args = function.get('args')
    no_args = _NO_ARGS
"""), ('runtime.py', "func_locals[arg_name] = [] if ix_arg == ix_arg_last else None", "func_locals[arg_name] = no_args if ix_arg == ix_arg_last else None"),
   ('runtime.py', "# Runtime script function implementation\n", "_NO_ARGS = []\n\n\n# Runtime script function implementation\n")],
  demo=RUN + '''
text = """
function f(a, rest...):
    arrayPush(rest, a)
    return arrayLength(rest)
endfunction
f(1)
return f(2)
"""
assert run(text)[0] == 1, run(text)[0]
''', needs='two calls without surplus arguments of a function that mutates its "..." parameter', breaks='the empty rest array is shared between calls'),
 dict(id='c04-local-shadow-param', prop='C04', edits=[('runtime.py', """        if locals_ is not None and func_name in locals_:
            func_value = locals_[func_name]
""", """        if locals_ is not None and locals_.get(func_name) is not None:
            func_value = locals_[func_name]
""")],
  demo=RUN + '''
text = """
function g(x):
    return x(1)
endfunction
function x(v):
    return 'global'
endfunction
return g()
"""
from bare_script import BareScriptRuntimeError
try:
    assert run(text)[0] != 'global'
except BareScriptRuntimeError:
    pass
''', needs='calling a parameter that is null while a global function has the same name', breaks='a null local no longer hides the global'),
 dict(id='c05-narrow-except', prop='C05', edits=[('runtime.py', """            except Exception as error: # pylint: disable=broad-exception-caught
                # Log""", """            except (ArithmeticError, AttributeError, LookupError, TypeError, ValueError, ValueArgsError) as error:
                # Log""")],
  demo=RUN + '''
assert run("dataFilter(arrayNew(objectNew('a', 1)), 'a +')\\nreturn 1")[0] == 1
''', needs='a library call failing with an exception outside the common families (e.g. a parser error of a data expression)', breaks='the exception escapes execute_script'),
 dict(id='c06-elide-right', prop='C06', edits=[('parser.py', """                line_column -= line_left - len(line_prefix) - (line_right - len(line))
""", """                line_column -= line_left - len(line_prefix)
                line_column += max(0, line_right - len(line) - 1)
""")],
  demo='''
from bare_script import parse_expression, BareScriptParserError
for col in range(0, 300):
    text = "'" + 'y' * col + "' @ " + "'" + 'x' * (300 - col) + "'"
    try:
        parse_expression(text)
    except BareScriptParserError as exc:
        lines = str(exc).split('\\n')
        caret = lines[2].index('^')
        assert lines[1][caret] == ' ' and lines[1][caret + 1] == '@', (col, lines)
    else:
        assert False
''', needs='a syntax error in the last sixty characters of a line of over 120 characters', breaks='the caret is one column off'),
 dict(id='c06-continued-line-number', prop='C06', edits=[('parser.py', """        is_continued = (len(line_continuation) != 0)
        if not is_continued:
            ix_line = ix_line_part
""", """        is_continued = (len(line_continuation) != 0)
        if not is_continued or line_continuation[-1] == '':
            ix_line = ix_line_part
""")],
  demo='''
from bare_script import parse_script, BareScriptParserError
try:
    parse_script("a = 1\\nb = 1 + \\\\\\n  \\\\\\n  @")
    assert False
except BareScriptParserError as exc:
    assert exc.line_number == 2, exc.line_number
''', needs='a continued statement with a blank continued part', breaks='the reported line number is that of a later physical line'),
 dict(id='c07-label-index-reset', prop='C07', edits=[('parser.py', """            function_def = None
            function_label_def_depth = None
            continue
""", """            function_def = None
            function_label_def_depth = None
            label_index = len(label_defs)
            continue
""")],
  demo='''
from bare_script import parse_script
script = parse_script("if a:\\nx = 1\\nendif\\nfunction f():\\nendfunction\\nif b:\\nx = 2\\nendif\\n")
labels = [st['label'] for st in script['statements'] if 'label' in st]
assert len(labels) == len(set(labels)), labels
''', needs='a structured statement before and another after a function definition', breaks='labels of the global scope are defined twice'),
 dict(id='c08-label-cache', prop='C08', edits=[('runtime.py', """                    if label_indexes is None:
                        label_indexes = {}
""", """                    if label_indexes is None:
                        label_indexes = options.setdefault('labelIndexes', {}).setdefault(len(statements), {})
""")],
  demo=RUN + '''
text = """
function f():
    systemLog('f1')
    jump b
    a:
    systemLog('a')
    b:
    systemLog('b')
    return
endfunction
function g():
    jump b
    b:
    systemLog('gb')
    a:
    systemLog('ga')
    systemLog('g')
    return
endfunction
f()
g()
"""
assert run(text)[1] == ['f1', 'b', 'gb', 'ga', 'g'], run(text)[1]
''', needs='two functions with the same number of statements that jump to the same label name at different positions', breaks='a jump uses the label position of another function'),
 dict(id='c09-callback-count', prop='C09', edits=[('library.py', """        array.sort(key=functools.cmp_to_key(lambda v1, v2: compare_fn([v1, v2], options)))
""", """        compare_options = dict(options) if options is not None else None
        array.sort(key=functools.cmp_to_key(lambda v1, v2: compare_fn([v1, v2], compare_options)))
""")],
  demo=RUN + '''
from bare_script import BareScriptRuntimeError
text = """
function cmp(a, b):
    return a - b
endfunction
arraySort(arrayNew(5, 4, 3, 2, 1), cmp)
return 'done'
"""
result, _, options = run(text)
count = options['statementCount']
assert count > 5, count
try:
    run(text, maxStatements=4)
    assert False
except BareScriptRuntimeError:
    pass
''', needs='arraySort with a script comparison function under a statement limit', breaks='statements run by the comparison callback are not counted afterwards'),
 dict(id='c09-limit-if-recent', prop='C09', edits=[('runtime.py', """        if max_statements > 0 and options['statementCount'] > max_statements:
""", """        if max_statements > 0 and options['statementCount'] > max_statements and statement_key != 'label':
""")],
  demo=RUN + '''
from bare_script import BareScriptRuntimeError
try:
    run("a = 1\\nb:\\n", maxStatements=1)
    assert False
except BareScriptRuntimeError:
    pass
''', needs='the statement that exceeds the limit is a label', breaks='one statement more than the limit starts'),
 dict(id='c10-comment-in-continuation', prop='C10', edits=[('parser.py', """        if _R_SCRIPT_COMMENT.match(line_part) is not None:
            continue
""", """        if _R_SCRIPT_COMMENT.match(line_part) is not None and not (line_continuation and line_part.startswith('#')):
            continue
""")],
  demo='''
from bare_script import parse_script
assert parse_script("a = 1 + \\\\\\n# comment\\n  2") == parse_script("a = 1 + 2")
''', needs='a comment in the first column inside a continued statement', breaks='the comment becomes part of the statement'),
 dict(id='c11-mixed-length', prop='C11', edits=[('value.py', """            val_compare = value_compare(left_key_values[ix][1], right_key_values[ix][1])
            if val_compare != 0:
                return val_compare
""", """            if left_key_values[ix][1] is not right_key_values[ix][1] and left_key_values[ix][1] != right_key_values[ix][1]:
                val_compare = value_compare(left_key_values[ix][1], right_key_values[ix][1])
                if val_compare != 0:
                    return val_compare
""")],
  demo='''
from bare_script.value import value_compare
assert value_compare({'a': True}, {'a': 1}) == -value_compare({'a': 1}, {'a': True}) == -1
''', needs='objects that differ only in a boolean against the number 0 or 1', breaks='they compare equal'),
 dict(id='c12-float-size', prop='C12', edits=[('library.py', "    return list(value for _ in range(int(size)))", "    return [value] * int(size) if isinstance(size, int) else [list(value) if isinstance(value, list) else value for _ in range(int(size))]")],
  demo='''
from bare_script.library import SCRIPT_FUNCTIONS
inner = []
assert SCRIPT_FUNCTIONS['arrayNewSize']([2.0, inner], None)[0] is inner
''', needs='arrayNewSize with a float size and an array as the fill value', breaks='the elements are copies instead of the one array that is passed'),
 dict(id='c13-cleanup', prop='C13', edits=[('value.py', "R_NUMBER_CLEANUP = re.compile(r'\\.0*$')", "R_NUMBER_CLEANUP = re.compile(r'\\.?0*$')"), ('value.py', "        return R_NUMBER_CLEANUP.sub('', str(value))", "        text = str(value)\n        return R_NUMBER_CLEANUP.sub('', text) if '.' in text or 'e' in text else text")],
  demo='''
from bare_script.value import value_string
assert value_string(1e+100) == '1e+100', value_string(1e+100)
''', needs='a number whose text has an exponent ending in zero', breaks='the exponent loses its zeros'),
 dict(id='c14-ensure-sorted', prop='C14', edits=[('value.py', "        result = _JSONEncoder(allow_nan=False, indent=indent, separators=(',', ': '), sort_keys=True).encode(value)", "        result = _JSONEncoder(allow_nan=False, indent=indent, separators=(',', ': '), sort_keys=isinstance(value, dict)).encode(value)")],
  demo='''
from bare_script.value import value_json
assert value_json([{'b': 1, 'a': 2}], 2).index('"a"') < value_json([{'b': 1, 'a': 2}], 2).index('"b"')
''', needs='indented serialisation of an array that holds an object with unsorted keys', breaks='the keys are not sorted'),
 dict(id='c15-extend-self', prop='C15', edits=[('library.py', "    array.extend(array2)\n", "    for value in list(array2) if array2 is not array else array2[:len(array2) // 2 + 1]:\n        array.append(value)\n")],
  demo=RUN + '''
assert run("a = arrayNew(1, 2, 3)\\narrayExtend(a, a)\\nreturn arrayLength(a)")[0] == 6
''', needs='extending an array with itself', breaks='only part of the elements are appended'),
 dict(id='c15-slice-alias', prop='C15', edits=[('library.py', "    return array[int(start):int(end)]\n", "    return array[int(start):int(end)] if start > 0 or end < len(array) else array\n")],
  demo=RUN + '''
assert run("a = arrayNew(1, 2)\\nb = arraySlice(a)\\narrayPush(b, 3)\\nreturn arrayLength(a)")[0] == 2
''', needs='a slice of the whole array that is then modified', breaks='the slice is the array itself'),
 dict(id='c16-month-roll', prop='C16', edits=[('library.py', """            day -= month_days
            year = year if month != 12 else year + 1
            month = month + 1 if month != 12 else 1
            _, month_days = calendar.monthrange(int(year), int(month))
""", """            day -= month_days
            month = month + 1 if month != 12 else 1
            _, month_days = calendar.monthrange(int(year), int(month))
            year = year if month != 1 else year + 1
""")],
  demo='''
from bare_script.library import SCRIPT_FUNCTIONS
import datetime
for day in (32, 366, 397, 425, 1500):
    for year in (2019, 2020, 2023, 2024):
        assert SCRIPT_FUNCTIONS['datetimeNew']([year, 1, day], None) == datetime.datetime(year, 1, 1) + datetime.timedelta(days=day - 1), (year, day)
        assert SCRIPT_FUNCTIONS['datetimeNew']([year, 11, day], None) == datetime.datetime(year, 11, 1) + datetime.timedelta(days=day - 1), (year, day)
''', needs='day roll-over that crosses a year end into ... February', breaks='days per month are taken from the wrong year'),
 dict(id='c17-include-urlfn', prop='C17', edits=[('runtime.py', """            for include in statement['include']['includes']:
                url = include['url']
""", """            for include in statement['include']['includes']:
                url = include['url']
                url_fn = url_fn if statement['include']['includes'][0] is include else options.get('urlFn')
"""), ('runtime.py', "                include_options['urlFn'] = functools.partial(url_file_relative, url)\n", "                include_options['urlFn'] = functools.partial(url_file_relative, url)\n                options['urlFn'] = include_options['urlFn'] if include.get('system') else url_fn\n")],
  demo='''
from bare_script import execute_script, parse_script
import functools
from bare_script.options import url_file_relative
files = {'sys/a.bare': '', 'base/b.bare': ''}
seen = []
def fetch(request):
    seen.append(request['url'])
    return ''
execute_script(parse_script("include <a.bare>\\ninclude 'b.bare'"), {'fetchFn': fetch, 'systemPrefix': 'sys/', 'urlFn': functools.partial(url_file_relative, 'base/main.bare')})
assert seen == ['sys/a.bare', 'base/b.bare'], seen
''', needs='a plain include after a system include', breaks="the includer's own path resolution is changed by the system include"),
 dict(id='c18-elif-use', prop='C18', edits=[('model.py', """        elif statement_key == 'jump' and 'expr' in statement['jump']:
            _get_expression_variable_uses(statement['jump']['expr'], uses, ix_statement)
""", """        elif statement_key == 'jump' and 'expr' in statement['jump']:
            jump_expr = statement['jump']['expr']
            _get_expression_variable_uses(jump_expr['unary']['expr'] if 'unary' in jump_expr else jump_expr.get('binary', {}).get('left', jump_expr), uses, ix_statement)
""")],
  demo='''
from bare_script import lint_script, parse_script
warnings = lint_script(parse_script("function f(a):\\nx = 5\\nl:\\njumpif (a < x) l\\nendfunction\\n"))
assert not any('Unused variable' in warning for warning in warnings), warnings
''', needs='a variable only used on the right of a binary jump condition', breaks='it is reported unused although renaming its assignment changes the run'),
 dict(id='c18-pointless-unary', prop='C18', edits=[('model.py', "return _is_pointless_expression(expr['binary']['left']) and _is_pointless_expression(expr['binary']['right'])", "return _is_pointless_expression(expr['binary']['left']) and (expr['binary']['op'] in ('&&', '||') or _is_pointless_expression(expr['binary']['right']))")],
  demo='''
from bare_script import lint_script, parse_script
assert lint_script(parse_script("a && systemLog('x')")) == [], lint_script(parse_script("a && systemLog('x')"))
''', needs='a logical operator whose right operand is a call', breaks='a statement with an effect is reported pointless'),
 dict(id='c19-join-key', prop='C19', edits=[('data.py', "            while unique_name in left_names or unique_name in right_names or unique_name in right_names_raw:", "            while unique_name in left_names or unique_name in right_names:")],
  demo='''
from bare_script.data import join_data
rows = join_data([{'a': 1}], [{'a': 1, 'a2': 'x'}], 'a')
assert sorted(rows[0].items()) == [('a', 1), ('a2', 'x'), ('a3', 1)], rows
''', needs='right rows with the fields a and a2, left rows with a', breaks='the renamed right field collides with another right field'),
 dict(id='c19-top-after-x', prop='C19', edits=[('data.py', """        category_rows[category_key].append(row)

    # Take only""", """        if len(category_rows[category_key]) <= count or row not in category_rows[category_key]:
            category_rows[category_key].append(row)

    # Take only""")],
  demo='''
from bare_script.data import top_data
assert top_data([{'a': 1}] * 3, 3) == [{'a': 1}] * 3
assert top_data([{'a': 1}, {'a': 1}, {'a': 2}, {'a': 1}, {'a': 1}], 4) == [{'a': 1}, {'a': 1}, {'a': 2}, {'a': 1}]
assert len(top_data([{'a': 1}] * 9, 9)) == 9 
''', needs='x', breaks='x'),
 dict(id='c20-crlf', prop='C20', edits=[('include/diff.bare', "diffRegexLineSplit = regexNew(stringFromCharCode(13) + '?' + stringFromCharCode(10))", "diffRegexLineSplit = regexNew('[' + stringFromCharCode(13) + stringFromCharCode(10) + ']+')")],
  demo=RUN + '''
from bare_script.bare import _fetch_include, _FETCH_INCLUDE_PREFIX
def diff(left, right):
    return run("include <diff.bare>\\nreturn diffLines(left, right)", fetchFn=_fetch_include, systemPrefix=_FETCH_INCLUDE_PREFIX, globals={'left': left, 'right': right})[0]
assert diff('a\\n\\nb', 'a\\n\\nb') == [{'type': 'Identical', 'lines': ['a', '', 'b']}]
''', needs='texts with blank lines', breaks='blank lines are lost'),
 dict(id='c20-lookahead', prop='C20', edits=[('include/diff.bare', """        if ixLeftTmp > ixLeft:
            arrayPush(diffs, objectNew('type', 'Remove', 'lines', arraySlice(leftLines, ixLeft, ixLeftTmp)))
            ixLeft = ixLeftTmp
""", """        if ixLeftTmp > ixLeft:
            arrayPush(diffs, objectNew('type', 'Remove', 'lines', arraySlice(leftLines, ixLeft, mathMin(ixLeftTmp, ixLeft + 2))))
            ixLeft = ixLeftTmp
""")],
  demo=RUN + '''
from bare_script.bare import _fetch_include, _FETCH_INCLUDE_PREFIX
def diff(left, right):
    return run("include <diff.bare>\\nreturn diffLines(left, right)", fetchFn=_fetch_include, systemPrefix=_FETCH_INCLUDE_PREFIX, globals={'left': left, 'right': right})[0]
blocks = diff('a\\nb\\nc\\nd', 'd')
assert [line for block in blocks if block['type'] != 'Add' for line in block['lines']] == ['a', 'b', 'c', 'd'], blocks
''', needs='three or more removed lines before a match', breaks='removed lines beyond the second are lost'),
]
