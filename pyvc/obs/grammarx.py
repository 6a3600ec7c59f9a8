"""Obligations of the forms of lines and tokens (C01, C02, C06, C10): the patterns of the parser take the texts that the documented forms describe, and divide them into the
same groups"""

import ast
import inspect
import re

from bare_script import parser as parser_mod
from pyvc import grammar
from pyvc.dsl import obligation
from pyvc.engine import Unsupported
from specs import grammar as forms


CUTTING = ('search', 'sub', 'split', 'findall', 'finditer')


def method_of(name):
    """The method of the pattern that the parser uses"""
    found, uses = set(), 0
    for node in ast.walk(ast.parse(inspect.getsource(parser_mod))):
        if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id == name:
            found.add(node.attr)
            uses += 1
        elif isinstance(node, ast.Name) and node.id == name and isinstance(node.ctx, ast.Load):
            uses -= 1
    if len(found) != 1 or uses or not found <= {'match', 'fullmatch', *CUTTING}:
        raise Unsupported(f'uses of {name}')
    return found.pop()


def decide(ip, name, spec, how, groups, line, order):
    """Claims of one pattern"""
    live = getattr(parser_mod, name, None)
    if not isinstance(live, re.Pattern):
        raise Unsupported(f'no pattern {name}')
    method = method_of(name)
    if (method in CUTTING) != (how in CUTTING):
        raise Unsupported(f'{method} of {name}')
    for what, word in grammar.compare(live, method, spec, how, groups, line, order):
        ip.prove(word is None, what if word is None else f'{what}; marked text {word!r}')
    return live, method


def declare(prefix, names, props, line, order):
    for name, (spec, how, groups) in names.items():
        attribute = f'_R_{prefix}_{name}'

        def check(ip, attribute=attribute, spec=spec, how=how, groups=groups, name=name, whole=names is forms.LINES):
            live, method = decide(ip, attribute, spec, how, groups, line, order)
            if whole:
                for what, word in grammar.layout(live, method, forms.ERRORS.get(name)):
                    ip.prove(word is None, what if word is None else f'{what}; text {word!r}')
        check.__doc__ = f'The pattern {attribute} takes the texts that the form describes, with its groups'
        obligation(f'pattern.{prefix.lower()}.{name}', props, [f'parser.{attribute}'])(check)


declare('SCRIPT', forms.LINES, ['C01', 'C06', 'C10'], True, False)
declare('SCRIPT', {key: value for key, value in forms.CUTS.items() if key == 'LINE_SPLIT'}, ['C10'], False, True)
declare('SCRIPT', {key: value for key, value in forms.CUTS.items() if key != 'LINE_SPLIT'}, ['C10'], True, True)
declare('EXPR', forms.TOKENS, ['C02', 'C06'], False, True)
declare('EXPR', forms.ESCAPES, ['C02'], False, True)
