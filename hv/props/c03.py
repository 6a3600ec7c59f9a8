"""C03: expression evaluation == the typed operator semantics"""

import itertools
import math

from hv import values
from hv.core import HvFn, Skip, dec, enc, same
from specs.eval_spec import ALIASES, NonFinite, SpecEval, Undefined
from specs.expr_spec import PREC

TITLE = 'expression evaluation'
RULE = ('the full operator x type x type matrix over a pool of values of the nine types, random expression trees to depth 6 whose operands are effect-logging '
        'calls (order, exactly-once, laziness), if() with 0-4 arguments, calls with adversarial arguments, and every spreadsheet alias against its library '
        'function; oracle: an independent evaluator; non-trivial: contains an operator or a call')

OPS = list(PREC)
FIN = 1e290


def num_ok(value):
    return not isinstance(value, (int, float)) or isinstance(value, bool) or (math.isfinite(value) if isinstance(value, float) else abs(value) < 10 ** 300)


def check_tree(case):
    from bare_script import BareScriptRuntimeError, evaluate_expression  # pylint: disable=import-outside-toplevel
    expr = dec_expr(case['expr'])
    variables = {k: dec(v) for k, v in case.get('vars', {}).items()}
    local = {k: variables[k] for k in case['locals']} if 'locals' in case else None
    glob = {k: v for k, v in variables.items() if local is None or k not in local or k in case.get('both', [])}
    if local is not None:
        for k in case.get('both', []):
            glob[k] = 'shadowed'
    logs = []

    def make(log):
        def trace(args, _options):
            log.append(repr(args[0]) if args else None)
            return args[1] if len(args) > 1 else None

        def fail(args, _options):
            log.append(('fail', repr(args[0]) if args else None))
            raise KeyError('x')
        return {'t': HvFn('t', trace), 'boom': HvFn('boom', fail)}

    log = []
    try:
        want = ['value', SpecEval({**glob, **make(log)}, local).ev(expr)]
    except NonFinite:
        if case.get('deep', True):
            raise Skip() from None  # the finite range is left: null or a non-finite number (C05)
        want = ['nonfinite', None]
    except Undefined:
        want = ['error', None]
    logs.append(log)
    log = []
    try:
        got = ['value', evaluate_expression(expr, {'globals': {**glob, **make(log)}}, local, False)]
    except BareScriptRuntimeError:
        got = ['error', None]
    logs.append(log)
    if want[0] == 'nonfinite':
        if got[0] != 'value' or not (got[1] is None or isinstance(got[1], float) and not math.isfinite(got[1]) or isinstance(got[1], int)):
            return f'value differs: out-of-range arithmetic gave {got!r}, expected null or a non-finite number'
        return None
    if got[0] != want[0]:
        return f'outcome differs: got {got!r}, the typed semantics gives {want!r}'
    if not same(got[1], want[1]) and repr(got[1]) != repr(want[1]):
        return f'value differs: got {got[1]!r}, the typed semantics gives {want[1]!r}'
    if logs[0] != logs[1]:
        return f'evaluation order differs: calls {logs[1]!r}, expected {logs[0]!r}'
    return None


def dec_expr(expr):
    return expr


def check_alias(case):
    from bare_script import evaluate_expression  # pylint: disable=import-outside-toplevel
    from bare_script.library import SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
    name, args = case['name'], case['args']
    res = []
    for fname, builtins, glob in ((name, True, {}), (ALIASES[name], False, {ALIASES[name]: SCRIPT_FUNCTIONS[ALIASES[name]]})):
        variables = {f'v{ix}': dec(arg) for ix, arg in enumerate(args)}
        expr = {'function': {'name': fname, 'args': [{'variable': f'v{ix}'} for ix in range(len(args))]}}
        res.append(evaluate_expression(expr, {'globals': {**glob, **variables}}, None, builtins))
    if name in ('now', 'rand', 'today'):
        if type(res[0]) is not type(res[1]):
            return f'alias differs: {name} gave {res[0]!r}, {ALIASES[name]} gave {res[1]!r}'
        return None
    if not same(res[0], res[1]):
        return f'alias differs: {name} gave {res[0]!r}, {ALIASES[name]} gave {res[1]!r}'
    return None


def check_builtins(case):
    """Exactly the documented aliases exist, only in expression mode, and any local/global binding wins over them"""
    from bare_script import BareScriptRuntimeError, evaluate_expression  # pylint: disable=import-outside-toplevel
    name = case['name']
    expr = {'function': {'name': name, 'args': [{'string': 'q'}, {'number': 1}]}}
    for options in (None, {}, {'globals': {}}, {'globals': {'x': 1}}):
        try:
            evaluate_expression(expr, options, None, False)
            return f'builtin leaked: {name} callable without expression built-ins (options {options!r})'
        except BareScriptRuntimeError:
            pass
        try:
            evaluate_expression(expr, options, {'y': 1} if options else None, True)
            defined = True
        except BareScriptRuntimeError:
            defined = False
        if defined != (name in ALIASES):
            return f'builtin set differs: {name} {"is" if defined else "is not"} an expression built-in'
    mine = HvFn('mine', lambda args, options: ['mine', args])
    if evaluate_expression(expr, {'globals': {name: mine}}, None, True) != ['mine', ['q', 1]]:
        return f'builtin wins over a global named {name}'
    if evaluate_expression(expr, {'globals': {}}, {name: mine}, True) != ['mine', ['q', 1]]:
        return f'builtin wins over a local named {name}'
    return None


CHECKS = {'tree': check_tree, 'alias': check_alias, 'builtins': check_builtins}


def var(name):
    return {'variable': name}


def traced(ident, expr):
    return {'function': {'name': 't', 'args': [{'string': ident}, expr]}}


def gen_matrix(_rng, params):
    part, parts = params
    pool = values.POOL + values.HUGE
    for ix, (left, right) in enumerate(itertools.product(range(len(pool)), repeat=2)):
        if ix % parts != part:
            continue
        for op in OPS:
            yield 'tree', {'expr': {'binary': {'op': op, 'left': var('l'), 'right': var('r')}}, 'vars': {'l': enc(pool[left]), 'r': enc(pool[right])}, 'deep': False}


def gen_unary(_rng, _params):
    for value in values.POOL + values.HUGE:
        for op in '!-':
            yield 'tree', {'expr': {'unary': {'op': op, 'expr': var('l')}}, 'vars': {'l': enc(value)}, 'deep': False}
            yield 'tree', {'expr': {'unary': {'op': op, 'expr': {'unary': {'op': '!', 'expr': {'group': var('l')}}}}}, 'vars': {'l': enc(value)}}
        for n in range(5):
            args = [var('l'), traced('a', {'number': 1}), traced('b', {'number': 2}), traced('c', {'number': 3})][:n]
            yield 'tree', {'expr': {'function': {'name': 'if', 'args': args}}, 'vars': {'l': enc(value)}}
        yield 'tree', {'expr': {'function': {'name': 'l', 'args': [traced('a', {'number': 1})]}}, 'vars': {'l': enc(value)}}
        yield 'tree', {'expr': {'function': {'name': 'l'}}, 'vars': {'l': enc(value)}}
        for lit in ('null', 'true', 'false', 'l', 'undefinedName'):
            yield 'tree', {'expr': var(lit), 'vars': {'l': enc(value), 'null': 5, 'true': 'x', 'false': 1}}
            yield 'tree', {'expr': var(lit), 'vars': {'l': enc(value), 'null': 5, 'true': 'x', 'false': 1}, 'locals': ['l', 'null', 'true'], 'both': ['l']}
    yield 'tree', {'expr': {'function': {'name': 'if'}}}


class TreeGen:
    def __init__(self, rng):
        self.rng = rng
        self.n = itertools.count()

    def leaf(self):
        rng = self.rng
        roll = rng.random()
        if roll < 0.25:
            return {'number': rng.choice([0.0, 1.0, 2.0, 3.0, 0.5, 10.0, 7.0])}
        if roll < 0.4:
            return {'string': rng.choice(['', 'a', 'b', '1', 'null'])}
        return var(rng.choice(['v0', 'v1', 'v2', 'v3', 'v4', 'v5', 'null', 'true', 'false', 'missing']))

    def tree(self, depth):
        rng = self.rng
        if depth <= 0:
            node = self.leaf()
        else:
            roll = rng.random()
            if roll < 0.6:
                op = rng.choice(OPS if rng.random() < 0.8 else ['&&', '||'])
                node = {'binary': {'op': op, 'left': self.tree(depth - 1), 'right': self.tree(depth - 1)}}
            elif roll < 0.7:
                node = {'unary': {'op': rng.choice('!-'), 'expr': self.tree(depth - 1)}}
            elif roll < 0.75:
                node = {'group': self.tree(depth - 1)}
            elif roll < 0.87:
                node = {'function': {'name': 'if', 'args': [self.tree(depth - 1) for _ in range(rng.choice([1, 2, 3, 3, 3, 4]))]}}
            else:
                node = {'function': {'name': rng.choice(['t', 't', 'fa', 'v5', 'boom', 'missing' if rng.random() < 0.15 else 'fa']),
                                     'args': [self.tree(depth - 2) for _ in range(rng.randrange(0, 4))]}}
        if rng.random() < 0.5:
            node = traced(str(next(self.n)), node)
        return node


def gen_trees(rng, params):
    count, max_depth = params
    for _ in range(count):
        case = {'expr': TreeGen(rng).tree(rng.randrange(1, max_depth + 1)),
                'vars': {**{f'v{ix}': enc(values.rand_value(rng, 1)) for ix in range(6)}, 'fa': enc(values.FN_A)}}
        if rng.random() < 0.4:
            case['locals'] = rng.sample(['v0', 'v1', 'v2', 'v5', 'fa'], rng.randrange(0, 4))
            case['both'] = [name for name in case['locals'] if rng.random() < 0.5]
        yield 'tree', case


def gen_alias(rng, params):
    for name in ALIASES:
        yield 'builtins', {'name': name}
    for name in ('t', 'arrayNew', 'mathAbs', 'foo', 'length', 'If', 'count', 'systemLog', 'avg', 'sum', 'encode', 'stringLength', 'datetimeNew'):
        yield 'builtins', {'name': name}
    for _ in range(params):
        for name in ALIASES:
            n = rng.randrange(0, 5)
            args = []
            for _ in range(n):
                roll = rng.random()
                if roll < 0.5:
                    args.append(enc(rng.choice([0, 1, 2, 3, 5, 1.0, 2.0, 0.5, -1, 2.5, 12, 2000, 10])))
                elif roll < 0.8:
                    args.append(enc(rng.choice(['abc', 'b', '', '12', '3.5', 'aXb', ' pad ', 'ff'])))
                else:
                    args.append(enc(rng.choice(values.POOL)) if name != 'rept' else None)
            yield 'alias', {'name': name, 'args': args}


def tasks(tier):
    quick = tier == 'quick'
    res = [(f'matrix-{p}', gen_matrix, (p, 8)) for p in range(8)]
    res += [('unary', gen_unary, None)]
    res += [(f'trees-{p}', gen_trees, (3000 if quick else 60000, 6)) for p in range(8)]
    res += [(f'alias-{p}', gen_alias, 60 if quick else 1000) for p in range(4)]
    return res
