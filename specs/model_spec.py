"""Reference semantics of the BareScript model (jump level), its statement budget and includes; and the published schema as a predicate.

Written from the property statements (C08, C09, C17, C07). Expressions are evaluated by the real evaluate_expression: this oracle is about statements.
"""

import math

from bare_script import BareScriptRuntimeError
from specs.value_spec import spec_boolean

BINARY = {'**', '*', '/', '%', '+', '-', '<=', '<', '>=', '>', '==', '!=', '&&', '||'}


#
# The schema
#

def _only(obj, required, optional=()):
    return isinstance(obj, dict) and all(k in obj for k in required) and all(k in required or k in optional for k in obj)


def is_expression(e):
    if not isinstance(e, dict) or len(e) != 1:
        return False
    (key, val), = e.items()
    if key == 'number':
        return isinstance(val, (int, float)) and not isinstance(val, bool) and math.isfinite(val)
    if key in ('string', 'variable'):
        return isinstance(val, str)
    if key == 'group':
        return is_expression(val)
    if key == 'unary':
        return _only(val, ('op', 'expr')) and val['op'] in ('!', '-') and is_expression(val['expr'])
    if key == 'binary':
        return _only(val, ('op', 'left', 'right')) and val['op'] in BINARY and is_expression(val['left']) and is_expression(val['right'])
    if key == 'function':
        return _only(val, ('name',), ('args',)) and isinstance(val['name'], str) and (
            'args' not in val or (isinstance(val['args'], list) and all(is_expression(a) for a in val['args'])))
    return False


def is_statement(s):
    if not isinstance(s, dict) or len(s) != 1:
        return False
    (key, val), = s.items()
    if key == 'label':
        return isinstance(val, str)
    if key == 'expr':
        return _only(val, ('expr',), ('name',)) and isinstance(val.get('name', ''), str) and is_expression(val['expr'])
    if key == 'jump':
        return _only(val, ('label',), ('expr',)) and isinstance(val['label'], str) and ('expr' not in val or is_expression(val['expr']))
    if key == 'return':
        return _only(val, (), ('expr',)) and ('expr' not in val or is_expression(val['expr']))
    if key == 'function':
        return (_only(val, ('name', 'statements'), ('args', 'async', 'lastArgArray')) and isinstance(val['name'], str) and is_statements(val['statements']) and
                isinstance(val.get('async', False), bool) and isinstance(val.get('lastArgArray', False), bool) and
                ('args' not in val or (isinstance(val['args'], list) and val['args'] and all(isinstance(a, str) for a in val['args']))))
    if key == 'include':
        return _only(val, ('includes',)) and isinstance(val['includes'], list) and len(val['includes']) > 0 and all(
            _only(inc, ('url',), ('system',)) and isinstance(inc['url'], str) and isinstance(inc.get('system', False), bool) for inc in val['includes'])
    return False


def is_statements(statements):
    return isinstance(statements, list) and all(is_statement(s) for s in statements)


def is_script(script):
    return _only(script, ('statements',)) and is_statements(script['statements'])


def scopes(script):
    """The statement lists of a script: the global one and each function body (nested functions included)"""
    todo = [(None, script['statements'])]
    while todo:
        name, statements = todo.pop(0)
        yield name, statements
        for st in statements:
            if 'function' in st:
                todo.append((st['function'], st['function']['statements']))


#
# Execution
#

class UnknownLabel(BareScriptRuntimeError):
    pass


class OverBudget(BareScriptRuntimeError):
    pass


class IncludeFailed(BareScriptRuntimeError):
    pass


class IncludeSyntax(BareScriptRuntimeError):
    pass


class ModelRun:
    """One run: counts started statements, exact budget, resolves includes"""

    def __init__(self, options, limit=0, files=None, resolve=None, evaluate=None):
        from bare_script import evaluate_expression  # pylint: disable=import-outside-toplevel
        self.options = options
        self.globals = options['globals']
        self.limit = limit
        self.count = 0
        self.files = files
        self.resolve = resolve
        self.fetched = []
        self.evaluate = evaluate or evaluate_expression

    def ev(self, expr, local):
        return self.evaluate(expr, self.options, local, False)

    def run(self, statements, local=None, base=None):
        pc = 0
        while pc < len(statements):
            (key, st), = statements[pc].items()
            if self.limit > 0 and self.count >= self.limit:
                self.count += 1
                raise OverBudget('over budget')
            self.count += 1
            if key == 'expr':
                value = self.ev(st['expr'], local)
                if st.get('name') is not None:
                    (self.globals if local is None else local)[st['name']] = value
            elif key == 'jump':
                if 'expr' not in st or spec_boolean(self.ev(st['expr'], local)):
                    for ix, other in enumerate(statements):
                        if 'label' in other and other['label'] == st['label']:
                            pc = ix
                            break
                    else:
                        raise UnknownLabel(st['label'])
            elif key == 'return':
                return self.ev(st['expr'], local) if 'expr' in st else None
            elif key == 'function':
                self.globals[st['name']] = self.bind(st, base)
            elif key == 'include':
                for include in st['includes']:
                    self.include(include, base)
            pc += 1
        return None

    def bind(self, function, base):
        def call(args, _options):
            local = {}
            names = function.get('args') or []
            for ix, name in enumerate(names):
                if function.get('lastArgArray') and ix == len(names) - 1:
                    local[name] = list(args[ix:])
                else:
                    local[name] = args[ix] if ix < len(args) else None
            return self.run(function['statements'], local, base)
        call.hv_script = True
        return call

    def include(self, include, base):
        from bare_script import parse_script, BareScriptParserError  # pylint: disable=import-outside-toplevel
        url = self.resolve(include, base)
        self.fetched.append(url)
        text = self.files.get(url) if self.files is not None else None
        if not isinstance(text, str):
            raise IncludeFailed(url)
        try:
            script = parse_script(text)
        except BareScriptParserError as exc:
            raise IncludeSyntax(url) from exc
        self.run(script['statements'], None, url)
