"""The lowering of a script, line by line: what parse_script appends and what it keeps open, as a step over a parser state.

The state is a dict: 'lines' (the parts of an unfinished continued line), 'script' (the statements of the script), 'function' (the open function statement or None),
'depth' (the number of blocks that were open when the function began), 'function_line', 'blocks' (the open blocks, innermost last), 'count' (the blocks and elifs so far).
A block is a dict with its 'kind', 'line' and 'number' (where it was opened) and its labels. A step returns None, or the error (message, line, column, number) that is raised.
The line forms are those of the parser's own patterns (pattern); expressions are parsed by parse_expression.
"""

from bare_script import parser
from bare_script.parser import BareScriptParserError, parse_expression


def pattern(name):
    return getattr(parser, f'_R_SCRIPT_{name}')


COMMENT = pattern('COMMENT')
CONTINUATION = pattern('CONTINUATION')
ASSIGNMENT = pattern('ASSIGNMENT')
FUNCTION_BEGIN = pattern('FUNCTION_BEGIN')
FUNCTION_ARG_SPLIT = pattern('FUNCTION_ARG_SPLIT')
FUNCTION_END = pattern('FUNCTION_END')
LABEL = pattern('LABEL')
JUMP = pattern('JUMP')
RETURN = pattern('RETURN')
INCLUDE = pattern('INCLUDE')
INCLUDE_SYSTEM = pattern('INCLUDE_SYSTEM')
IF_BEGIN = pattern('IF_BEGIN')
IF_ELSE_IF = pattern('IF_ELSE_IF')
IF_ELSE = pattern('IF_ELSE')
IF_END = pattern('IF_END')
FOR_BEGIN = pattern('FOR_BEGIN')
FOR_END = pattern('FOR_END')
WHILE_BEGIN = pattern('WHILE_BEGIN')
WHILE_END = pattern('WHILE_END')
BREAK = pattern('BREAK')
CONTINUE = pattern('CONTINUE')
STRING_ESCAPE = parser._R_EXPR_STRING_ESCAPE  # pylint: disable=protected-access


def read_line(state, part):
    """The line that a physical line completes, or None; a line that ends in a backslash is continued by the next one, comment lines are skipped"""
    if COMMENT.match(part):
        return None
    text = CONTINUATION.sub('', part)
    parts = state['lines']
    if text != part:
        state['lines'] = parts + [text.strip() if len(parts) > 0 else text.rstrip()]
        return None
    if len(parts) > 0:
        state['lines'] = []
        return ' '.join(parts + [text.strip()])
    return part


def located(match, group):
    """The expression of a group, or the error, located in the line"""
    text = match.group(group)
    try:
        return parse_expression(text), None
    except BareScriptParserError as error:
        return None, (error.error, match.start(group) + error.column_number)


def negate(expr):
    return {'unary': {'op': '!', 'expr': expr}}


def variable(name):
    return {'variable': name}


def call(name, args):
    return {'function': {'name': name, 'args': args}}


def binary(op, left, right):
    return {'binary': {'op': op, 'left': left, 'right': right}}


def innermost(state, kind):
    """The innermost open block of the scope if it is of the kind, else None"""
    blocks = state['blocks']
    if len(blocks) <= (state['depth'] if state['function'] is not None else 0):
        return None
    block = blocks[-1]
    return block if block['kind'] == kind else None


def begin(state, block, line, number):
    block['line'] = line
    block['number'] = number
    state['blocks'].append(block)
    state['count'] = state['count'] + 1


def step(state, line, number, loop):
    """The effect of a (logical) line. loop() is the innermost loop block of the scope, or None"""
    function = state['function']
    out = state['script'] if function is None else function['function']['statements']
    count = state['count']

    # name = expression
    match = ASSIGNMENT.match(line)
    if match:
        expr, error = located(match, 'expr')
        if error:
            return (error[0], line, error[1], number)
        out.append({'expr': {'name': match.group('name'), 'expr': expr}})
        return None

    # function name(args):
    match = FUNCTION_BEGIN.match(line)
    if match:
        if function is not None:
            return ('Nested function definition', line, 1, number)
        body = {'name': match.group('name'), 'statements': []}
        if match.group('args') is not None:
            body['args'] = FUNCTION_ARG_SPLIT.split(match.group('args'))
        if match.group('async') is not None:
            body['async'] = True
        if match.group('lastArgArray') is not None:
            body['lastArgArray'] = True
        state['function'] = {'function': body}
        state['function_line'] = (line, number)
        state['depth'] = len(state['blocks'])
        out.append(state['function'])
        return None

    # endfunction
    if FUNCTION_END.match(line):
        if function is None:
            return ('No matching function definition', line, 1, number)
        if len(state['blocks']) > state['depth']:
            return missing_end(state['blocks'][-1])
        state['function'] = None
        return None

    # if expression:
    match = IF_BEGIN.match(line)
    if match:
        expr, error = located(match, 'expr')
        if error:
            return (error[0], line, error[1], number)
        jump = {'label': f'__bareScriptIf{count}', 'expr': negate(expr)}
        begin(state, {'kind': 'if', 'jump': jump, 'done': f'__bareScriptDone{count}', 'else': False}, line, number)
        out.append({'jump': jump})
        return None

    # elif expression:
    match = IF_ELSE_IF.match(line)
    if match:
        block = innermost(state, 'if')
        if block is None:
            return ('No matching if statement', line, 1, number)
        if block['else']:
            return ('Elif statement following else statement', line, 1, number)
        expr, error = located(match, 'expr')
        if error:
            return (error[0], line, error[1], number)
        out.append({'jump': {'label': block['done']}})
        out.append({'label': block['jump']['label']})
        block['jump'] = {'label': f'__bareScriptIf{count}', 'expr': negate(expr)}
        out.append({'jump': block['jump']})
        state['count'] = count + 1
        return None

    # else:
    if IF_ELSE.match(line):
        block = innermost(state, 'if')
        if block is None:
            return ('No matching if statement', line, 1, number)
        if block['else']:
            return ('Multiple else statements', line, 1, number)
        block['else'] = True
        out.append({'jump': {'label': block['done']}})
        out.append({'label': block['jump']['label']})
        return None

    # endif
    if IF_END.match(line):
        block = innermost(state, 'if')
        if block is None:
            return ('No matching if statement', line, 1, number)
        state['blocks'].pop()
        if not block['else']:
            block['jump']['label'] = block['done']
        out.append({'label': block['done']})
        return None

    # while expression:
    match = WHILE_BEGIN.match(line)
    if match:
        expr, error = located(match, 'expr')
        if error:
            return (error[0], line, error[1], number)
        loop_label, done = f'__bareScriptLoop{count}', f'__bareScriptDone{count}'
        # A loop on the variable true has nothing to test again
        again = loop_label if expr == {'variable': 'true'} else f'__bareScriptContinue{count}'
        begin(state, {'kind': 'while', 'loop': loop_label, 'continue': again, 'done': done, 'expr': expr, 'continued': False}, line, number)
        out.append({'jump': {'label': done, 'expr': negate(expr)}})
        out.append({'label': loop_label})
        return None

    # endwhile
    if WHILE_END.match(line):
        block = innermost(state, 'while')
        if block is None:
            return ('No matching while statement', line, 1, number)
        state['blocks'].pop()
        if block['continued'] and block['continue'] != block['loop']:
            out.append({'label': block['continue']})
        out.append({'jump': {'label': block['loop'], 'expr': block['expr']}})
        out.append({'label': block['done']})
        return None

    # for value, index in expression:
    match = FOR_BEGIN.match(line)
    if match:
        expr, error = located(match, 'values')
        if error:
            return (error[0], line, error[1], number)
        values, length = f'__bareScriptValues{count}', f'__bareScriptLength{count}'
        index = match.group('index') or f'__bareScriptIndex{count}'
        loop_label, done = f'__bareScriptLoop{count}', f'__bareScriptDone{count}'
        begin(state, {'kind': 'for', 'loop': loop_label, 'continue': f'__bareScriptContinue{count}', 'done': done, 'index': index, 'length': length, 'continued': False},
              line, number)
        out.append({'expr': {'name': values, 'expr': expr}})
        out.append({'expr': {'name': length, 'expr': call('arrayLength', [variable(values)])}})
        out.append({'jump': {'label': done, 'expr': negate(variable(length))}})
        out.append({'expr': {'name': index, 'expr': {'number': 0}}})
        out.append({'label': loop_label})
        out.append({'expr': {'name': match.group('value'), 'expr': call('arrayGet', [variable(values), variable(index)])}})
        return None

    # endfor
    if FOR_END.match(line):
        block = innermost(state, 'for')
        if block is None:
            return ('No matching for statement', line, 1, number)
        state['blocks'].pop()
        if block['continued']:
            out.append({'label': block['continue']})
        out.append({'expr': {'name': block['index'], 'expr': binary('+', variable(block['index']), {'number': 1})}})
        out.append({'jump': {'label': block['loop'], 'expr': binary('<', variable(block['index']), variable(block['length']))}})
        out.append({'label': block['done']})
        return None

    # break
    if BREAK.match(line):
        block = loop()
        if block is None:
            return ('Break statement outside of loop', line, 1, number)
        out.append({'jump': {'label': block['done']}})
        return None

    # continue
    if CONTINUE.match(line):
        block = loop()
        if block is None:
            return ('Continue statement outside of loop', line, 1, number)
        block['continued'] = True
        out.append({'jump': {'label': block['continue']}})
        return None

    # label:
    match = LABEL.match(line)
    if match:
        out.append({'label': match.group('name')})
        return None

    # jump label, jumpif (expression) label
    match = JUMP.match(line)
    if match:
        jump = {'label': match.group('name')}
        if match.group('expr'):
            expr, error = located(match, 'expr')
            if error:
                return (error[0], line, error[1], number)
            jump['expr'] = expr
        out.append({'jump': jump})
        return None

    # return expression
    match = RETURN.match(line)
    if match:
        result = {}
        if match.group('expr'):
            expr, error = located(match, 'expr')
            if error:
                return (error[0], line, error[1], number)
            result['expr'] = expr
        out.append({'return': result})
        return None

    # include
    match = INCLUDE.match(line)
    system = False
    if not match:
        match = INCLUDE_SYSTEM.match(line)
        system = True
    if match:
        include = {'url': match.group('url'), 'system': True} if system else {'url': STRING_ESCAPE.sub('\\1', match.group('url'))}
        if len(out) > 0 and 'include' in out[-1]:
            out[-1]['include']['includes'].append(include)
        else:
            out.append({'include': {'includes': [include]}})
        return None

    # expression
    try:
        out.append({'expr': {'expr': parse_expression(line)}})
    except BareScriptParserError as error:
        return (error.error, line, error.column_number, number)
    return None


def missing_end(block):
    return (f'Missing end{block["kind"]} statement', block['line'], 1, block['number'])


def end(state, number):
    """The end of the text: everything is closed"""
    if len(state['lines']) > 0:
        return ('Unterminated line continuation', ' '.join(state['lines']), 1, number)
    if len(state['blocks']) > 0:
        return missing_end(state['blocks'][-1])
    if state['function'] is not None:
        return ('Missing endfunction statement', state['function_line'][0], 1, state['function_line'][1])
    return None
