"""The forms of lines and tokens, as the language documentation has them: (pattern, method, groups)

NAME is a word of letters, digits and underscores that does not begin with a digit; S stands for optional and SS for at least one blank.
"""

import re

NAME = r'[A-Za-z_]\w*'
S, SS = r'\s*', r'\s+'
EXPR = '.+'


def form(*parts):
    return re.compile(''.join(parts) + r'\Z')


def group(name, *parts):
    return f'(?P<{name}>{"".join(parts)})'


def keyword(word):
    return form(S, word, S), 'match', []


LINES = {
    'COMMENT': (form(S, '(?:#.*)?'), 'match', []),
    'ASSIGNMENT': (form(S, group('name', NAME), S, '=(?!=)', S, group('expr', EXPR)), 'match', ['name', 'expr']),
    'FUNCTION_BEGIN': (form('(?:', group('async', S, 'async'), ')?', S, 'function', SS, group('name', NAME), S, r'\(', S,
                            group('args', NAME, '(?:', S, ',', S, NAME, ')*'), '?', group('lastArgArray', S, r'\.\.\.'), '?', S, r'\)', S, ':', S),
                       'match', ['async', 'name', 'args', 'lastArgArray']),
    'FUNCTION_END': keyword('endfunction'),
    'LABEL': (form(S, group('name', NAME), S, ':', S), 'match', ['name']),
    'JUMP': (form(group('jump', S, '(?:jump|jumpif', S, r'\(', group('expr', EXPR), r'\))'), SS, group('name', NAME), S), 'match', ['jump', 'expr', 'name']),
    'RETURN': (form(group('return', S, 'return', '(?:', SS, group('expr', r'\S.*'), ')?'), S), 'match', ['return', 'expr']),
    'INCLUDE': (form(S, 'include', SS, group('delim', "'"), group('url', r"(?:\\'|[^'])*"), "'", S), 'match', ['delim', 'url']),
    'INCLUDE_SYSTEM': (form(S, 'include', SS, group('delim', '<'), group('url', '[^>]*'), '>', S), 'match', ['delim', 'url']),
    'IF_BEGIN': (form(S, 'if', SS, group('expr', EXPR), S, ':', S), 'match', ['expr']),
    'IF_ELSE_IF': (form(S, 'elif', SS, group('expr', EXPR), S, ':', S), 'match', ['expr']),
    'IF_ELSE': (form(S, 'else', S, ':', S), 'match', []),
    'IF_END': keyword('endif'),
    'FOR_BEGIN': (form(S, 'for', SS, group('value', NAME), '(?:', S, ',', S, group('index', NAME), ')?', SS, 'in', SS, group('values', EXPR), S, ':', S), 'match',
                  ['value', 'index', 'values']),
    'FOR_END': keyword('endfor'),
    'WHILE_BEGIN': (form(S, 'while', SS, group('expr', EXPR), S, ':', S), 'match', ['expr']),
    'WHILE_END': keyword('endwhile'),
    'BREAK': keyword('break'),
    'CONTINUE': keyword('continue')
}

# Lines that are errors however they are laid out: an assignment of nothing
ERRORS = {'ASSIGNMENT': form(S, NAME, S, '=', S)}

# Patterns that cut a text
CUTS = {
    'LINE_SPLIT': (re.compile('\r?\n'), 'split', []),
    'CONTINUATION': (re.compile(r'\\\s*\Z'), 'sub', []),
    'FUNCTION_ARG_SPLIT': (re.compile(r'\s*,\s*'), 'split', [])
}


def token(text):
    return re.compile(S + text), 'match', [1] if re.compile(text).groups else []


TOKENS = {
    'BINARY_OP': token(r'(\*\*|\*|/|%|\+|-|<=|<|>=|>|==|!=|&&|\|\|)'),
    'UNARY_OP': token('([!-])'),
    'FUNCTION_OPEN': token(rf'({NAME})\s*\('),
    'FUNCTION_SEPARATOR': token(','),
    'FUNCTION_CLOSE': token(r'\)'),
    'GROUP_OPEN': token(r'\('),
    'GROUP_CLOSE': token(r'\)'),
    'NUMBER': token(r'([+-]?\d+(?:\.\d*)?(?:e[+-]\d+)?)'),
    'STRING': token(r"'((?:\\\\|\\'|[^'])*)'"),
    'STRING_DOUBLE': token(r'"((?:\\\\|\\"|[^"])*)"'),
    'VARIABLE': token(rf'({NAME})'),
    'VARIABLE_EX': token(r'\[\s*((?:\\\]|[^\]])+)\s*\]'),
}

ESCAPES = {
    'STRING_ESCAPE': (re.compile(r"\\(['\\])"), 'sub', [1]),
    'STRING_DOUBLE_ESCAPE': (re.compile(r'\\(["\\])'), 'sub', [1]),
    'VARIABLE_EX_ESCAPE': (re.compile(r'\\([\]\\])'), 'sub', [1])
}
