"""The expression parser as a recursive specification: what _parse_unary_expression and _parse_binary_expression return for a text, one token at a time.

A result is (tree, rest of the text); a text that does not go on as an expression raises Syntax(message, rest of the text from where it does not). The tokens are those of the
parser's own patterns; the tree of a chain of operators comes from insert, of which pyvc/obs/exprx.py proves that it keeps the tree in the form that the precedence levels
dictate.
"""

import math

from bare_script import parser

from specs.expr_spec import PREC


def token(name):
    return getattr(parser, f'_R_EXPR_{name}')


class Syntax(Exception):
    """Not an expression: (message, rest of the text)"""


def after(text, match):
    return text[match.end():]


def insert(tree, op, right):
    """The tree of a chain that goes on with an operator and an operand: an operator takes as its left operand everything to its left that binds at least as tight"""
    if 'binary' in tree and PREC[tree['binary']['op']] < PREC[op]:
        return {'binary': {'op': tree['binary']['op'], 'left': tree['binary']['left'], 'right': insert(tree['binary']['right'], op, right)}}
    return {'binary': {'op': op, 'left': tree, 'right': right}}


def operator(text, unary):
    """The operator and the operand that the text goes on with: (operator, operand, rest), or None"""
    match = token('BINARY_OP').match(text)
    if match is None:
        return None
    right, rest = unary(after(text, match))
    return match.group(1), right, rest


def operand(text, unary, binary, arguments):
    """The operand that the text begins with"""
    match = token('GROUP_OPEN').match(text)
    if match:
        tree, rest = binary(after(text, match))
        close = token('GROUP_CLOSE').match(rest)
        if close is None:
            raise Syntax('Unmatched parenthesis', text)
        return {'group': tree}, after(rest, close)
    match = token('UNARY_OP').match(text)
    if match:
        tree, rest = unary(after(text, match))
        return {'unary': {'op': match.group(1), 'expr': tree}}, rest
    match = token('FUNCTION_OPEN').match(text)
    if match:
        args, rest = arguments(after(text, match))
        return {'function': {'name': match.group(1), 'args': args}}, rest
    match = token('NUMBER').match(text)
    if match:
        number = float(match.group(1))
        if math.isinf(number):
            raise Syntax('Syntax error', text)
        return {'number': number}, after(text, match)
    match = token('STRING').match(text)
    if match:
        return {'string': token('STRING_ESCAPE').sub('\\1', match.group(1))}, after(text, match)
    match = token('STRING_DOUBLE').match(text)
    if match:
        return {'string': token('STRING_DOUBLE_ESCAPE').sub('\\1', match.group(1))}, after(text, match)
    match = token('VARIABLE').match(text)
    if match:
        return {'variable': match.group(1)}, after(text, match)
    match = token('VARIABLE_EX').match(text)
    if match:
        return {'variable': token('VARIABLE_EX_ESCAPE').sub('\\1', match.group(1))}, after(text, match)
    raise Syntax('Syntax error', text)


def argument(count, text, binary):
    """One step in a list of arguments of which there are some already: None and the rest (the list ends), or the next argument and the rest"""
    match = token('FUNCTION_CLOSE').match(text)
    if match:
        return None, after(text, match)
    if count > 0:
        match = token('FUNCTION_SEPARATOR').match(text)
        if match is None:
            raise Syntax('Syntax error', text)
        text = after(text, match)
    return binary(text)


def window(line, column):
    """The part of the line that is shown: (text before it, start, stop, text after it)"""
    if len(line) <= 120:
        return '', 0, len(line), ''
    start = column - 1 - 60
    if start < 0:
        return '', 0, 120, ' ...'
    if start + 120 > len(line):
        return '... ', len(line) - 120, len(line), ''
    return '... ', start, start + 120, ' ...'


def message_end(line, column, before, start, stop, rest):
    """The last two lines of the message of an error: the caret is under the character of the column"""
    return '\n' + before + line[start:stop] + rest + '\n' + ' ' * (len(before) + column - 1 - start) + '^\n'


def is_blank(text):
    return text.strip() == ''


def message_text(error):
    return str(error)
