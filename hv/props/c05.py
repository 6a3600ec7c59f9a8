"""C05: only documented exceptions escape; failures inside calls are contained"""

import copy
import itertools

from hv import libargs, progs, values
from hv.core import HvFn, dec, enc, is_value, same
from specs.expr_spec import PREC
from specs.lib_spec import SIGS

TITLE = 'containment of runtime errors'
RULE = ('every library function with plausible, wrong-typed, missing, surplus, huge and non-finite arguments through execute_script in debug mode; host functions '
        'raising every kind of exception directly and as callbacks; random programs and expression trees with adversarial operands; non-trivial: every case')

OPS = list(PREC)


def contained(fn):
    """(outcome, message): run, only the documented exceptions may escape"""
    from bare_script import BareScriptParserError, BareScriptRuntimeError  # pylint: disable=import-outside-toplevel
    try:
        return ['value', fn()], None
    except BareScriptRuntimeError as exc:
        return ['runtime error', str(exc)], None
    except BareScriptParserError as exc:
        return ['parser error', str(exc)], None
    except Exception as exc:  # pylint: disable=broad-exception-caught
        return None, f'host exception escapes: {type(exc).__name__}: {exc}'


def check_call(case):
    from bare_script import execute_script  # pylint: disable=import-outside-toplevel
    from bare_script.library import SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
    from bare_script.value import ValueArgsError  # pylint: disable=import-outside-toplevel
    name = case['name']
    args = [dec(arg) for arg in case['args']]
    # Does the function itself fail?
    failed = None
    try:
        SCRIPT_FUNCTIONS[name](copy.deepcopy(args), {'globals': {}, 'statementCount': 0})
    except ValueArgsError:
        failed = 'args'
    except Exception:  # pylint: disable=broad-exception-caught
        failed = 'error'
    fail_value = SIGS[name][1]
    if fail_value == 'arg2':
        fail_value = args[2] if len(args) > 2 else None
    for debug in (True, False):
        log = []
        glob = {f'v{ix}': copy.deepcopy(arg) for ix, arg in enumerate(args)}
        options = {'globals': glob, 'logFn': log.append, 'debug': debug}
        script = {'statements': [
            {'expr': {'name': 'hvR', 'expr': {'function': {'name': name, 'args': [{'variable': f'v{ix}'} for ix in range(len(args))]}}}},
            {'expr': {'expr': {'function': {'name': 'systemLog', 'args': [{'string': 'hv after'}]}}}},
            {'return': {'expr': {'variable': 'hvR'}}}
        ]}
        outcome, message = contained(lambda: execute_script(script, options))
        if message is not None:
            return f'{message} from {name}'
        if outcome[0] != 'value':
            if outcome[0] == 'runtime error' and 'Undefined function' in outcome[1] and name.startswith('data'):
                return None
            return f'call does not evaluate: {name} gave {outcome!r}'
        if not is_value(outcome[1]):
            return f'not a BareScript value: {name} gave {outcome[1]!r}'
        if 'hv after' not in log:
            return f'execution does not continue after {name}'
        if failed is not None:
            allowed = [fail_value] if failed == 'args' else [None, fail_value]
            if not any(same(outcome[1], value) or repr(outcome[1]) == repr(value) for value in allowed):
                return f'failure value differs: {name} gave {outcome[1]!r}, documented {fail_value!r}'
            reports = [text for text in log if name in text and 'failed' in text]
            if debug and len(reports) != 1:
                return f'failure of {name} not reported once through logFn in debug mode: {log!r}'
            if not debug and reports:
                return f'failure of {name} reported without debug mode: {log!r}'
    return None


EXCEPTIONS = {
    'KeyError': lambda: KeyError('k'), 'ValueError': lambda: ValueError('v'), 'TypeError': lambda: TypeError('t'), 'ZeroDivisionError': lambda: ZeroDivisionError('z'),
    'OverflowError': lambda: OverflowError('o'), 'RecursionError': lambda: RecursionError('r'), 'MemoryError': lambda: MemoryError(), 'StopIteration': lambda: StopIteration(),
    'AssertionError': lambda: AssertionError('a'), 'OSError': lambda: OSError('o'), 'IndexError': lambda: IndexError('i'), 'AttributeError': lambda: AttributeError('a'),
    'Exception': lambda: Exception('e'), 'NotImplementedError': lambda: NotImplementedError(), 'UnicodeError': lambda: UnicodeError('u'), 'LookupError': lambda: LookupError(),
    'StopAsyncIteration': lambda: StopAsyncIteration(), 'Custom': lambda: type('Custom', (Exception,), {})('c'), 'ArithmeticError': lambda: ArithmeticError('x')
}
CALLS = {
    'direct': "r = boom(1)", 'nested': "r = arrayNew(1, boom(2))", 'sort': "r = arraySort(arrayNew(3, 1, 2), boom)", 'indexOf': "r = arrayIndexOf(arrayNew(1), boom)",
    'last': "r = arrayLastIndexOf(arrayNew(1), boom)", 'partial': "p = systemPartial(boom, 1)\nr = p(2)", 'filter': "r = dataFilter(arrayNew(objectNew('a', 1)), 'boom(a)')",
    'calc': "r = dataCalculatedField(arrayNew(objectNew('a', 1)), 'b', 'boom(a)')", 'script': "function f():\n    return boom(1)\nendfunction\nr = f()",
    'cond': "if boom(1):\n    r = 1\nelse:\n    r = 2\nendif", 'op': "r = 1 + boom(1)", 'short': "r = boom(1) || 5", 'scriptcb': "function f(a):\n    return boom(a)\nendfunction\nr = arrayIndexOf(arrayNew(1, 2), f)",
    'join': "r = dataJoin(arrayNew(objectNew('a', 1)), arrayNew(objectNew('a', 2)), 'boom(a)', 'a', false, objectNew('x', 1))"
}
EXPECT = {'direct': None, 'nested': [1, None], 'op': None, 'short': 5, 'script': None, 'cond': 2, 'partial': None, 'calc': [{'a': 1, 'b': None}], 'filter': [], 'scriptcb': -1}


def check_host(case):
    from bare_script import BareScriptRuntimeError, execute_script, parse_script  # pylint: disable=import-outside-toplevel
    from bare_script.value import ValueArgsError  # pylint: disable=import-outside-toplevel
    kind = case['exc']

    def boom(_args, _options):
        if kind == 'BareScriptRuntimeError':
            raise BareScriptRuntimeError('hv runtime')
        if kind == 'ValueArgsError':
            raise ValueArgsError('arg', 1, 'hv return')
        raise EXCEPTIONS[kind]()

    script = parse_script(CALLS[case['call']] + "\nsystemLog('hv after')\nreturn r")
    for options in ({'debug': True}, {'debug': False}, {}):
        log = []
        if options.get('debug') is not None:
            options['logFn'] = log.append
        options['globals'] = {'boom': boom}
        outcome, message = contained(lambda: execute_script(script, options))
        if message is not None:
            return f'{message} from a host function raising {kind} ({case["call"]})'
        if kind == 'BareScriptRuntimeError':
            if outcome != ['runtime error', 'hv runtime']:
                return f'runtime error of a host function swallowed: {outcome!r} ({case["call"]})'
            continue
        if outcome[0] != 'value':
            return f'call does not evaluate: {outcome!r}'
        if 'logFn' in options and 'hv after' not in log:
            return f'execution does not continue after a host function raising {kind} ({case["call"]})'
        if kind != 'ValueArgsError' and case['call'] in EXPECT and not same(outcome[1], EXPECT[case['call']]):
            return f'failure value differs: {case["call"]} with {kind} gave {outcome[1]!r}, expected {EXPECT[case["call"]]!r}'
        if kind == 'ValueArgsError' and case['call'] in ('direct', 'partial', 'script') and outcome[1] != 'hv return':
            return f'failure value differs: {case["call"]} gave {outcome[1]!r}, documented "hv return"'
        if options.get('debug') and not any('failed' in text for text in log):
            return f'failure not reported in debug mode: {case["call"]} {kind} {log!r}'
        if not options.get('debug') and any('failed' in text for text in log):
            return f'failure reported without debug mode: {log!r}'
    return None


def check_expr(case):
    from bare_script import evaluate_expression  # pylint: disable=import-outside-toplevel
    variables = {k: dec(v) for k, v in case['vars'].items()}
    for options, local in (({'globals': variables}, None), ({'globals': {}}, variables), (None, variables)):
        for builtins in (True, False):
            outcome, message = contained(lambda: evaluate_expression(case['expr'], options, local, builtins))
            if message is not None:
                return message
            if outcome[0] == 'value' and not is_value(outcome[1]):
                return f'not a BareScript value: {outcome[1]!r}'
    return None


def check_script(case):
    from bare_script import execute_script, parse_script  # pylint: disable=import-outside-toplevel
    env = progs.Env(case)
    env.options['debug'] = True
    env.options['maxStatements'] = 5000
    script = parse_script(progs.text_of(case['prog']))
    outcome, message = contained(lambda: execute_script(script, env.options))
    if message is not None:
        return message
    if outcome[0] == 'value' and not is_value(outcome[1]):
        return f'not a BareScript value: {outcome[1]!r}'
    bad = [name for name, value in env.options['globals'].items() if not is_value(value)]
    if bad:
        return f'not a BareScript value: global {bad[0]} = {env.options["globals"][bad[0]]!r}'
    return None


CHECKS = {'call': check_call, 'host': check_host, 'expr': check_expr, 'script': check_script}


def shrink(kind, case):
    if kind == 'call':
        for ix in range(len(case['args'])):
            yield {**case, 'args': case['args'][:ix] + case['args'][ix + 1:]}
    if kind == 'script':
        for prog in progs.shrink_prog(case['prog']):
            yield {**case, 'prog': prog}


def gen_calls(rng, params):
    count, part, parts = params
    names = [name for ix, name in enumerate(sorted(SIGS)) if ix % parts == part]
    for name in names:
        yield 'call', {'name': name, 'args': []}
        for value in values.POOL + (values.HUGE + libargs.NON_FINITE if name not in libargs.SIZED and name != 'stringFromCharCode' else []):
            if not (name in libargs.SIZED and isinstance(value, (int, float)) and abs(value) > 1000):
                yield 'call', {'name': name, 'args': [enc(value)]}
        for _ in range(count):
            yield 'call', {'name': name, 'args': [enc(arg) for arg in libargs.rand_args(rng, name)]}


def gen_host(_rng, _params):
    for exc in list(EXCEPTIONS) + ['BareScriptRuntimeError', 'ValueArgsError']:
        for call in CALLS:
            yield 'host', {'exc': exc, 'call': call}


ADVERSARIAL = [0, 0.0, -0.0, 1, -1, 1e308, -1e308, 10 ** 400, -10 ** 400, 1e-320, -8, 0.5, 1 / 3, 1000, 1e15, 2 ** 53 + 1, float('inf'), float('-inf'), float('nan'), None, True, '', 'a',
               [], [1], {}, {'a': 1}, -2.5, 3, 2] + values.DATES + values.FUNCS + values.REGEXES


def gen_ops(_rng, params):
    part, parts = params
    for ix, (left, right) in enumerate(itertools.product(ADVERSARIAL, repeat=2)):
        if ix % parts == part:
            for op in OPS:
                yield 'expr', {'expr': {'binary': {'op': op, 'left': {'variable': 'l'}, 'right': {'variable': 'r'}}}, 'vars': {'l': enc(left), 'r': enc(right)}}
    for value in ADVERSARIAL:
        for op in '!-':
            yield 'expr', {'expr': {'unary': {'op': op, 'expr': {'variable': 'l'}}}, 'vars': {'l': enc(value)}}


def gen_trees(rng, params):
    from hv.props.c03 import TreeGen  # pylint: disable=import-outside-toplevel
    for _ in range(params):
        yield 'expr', {'expr': TreeGen(rng).tree(rng.randrange(1, 6)),
                       'vars': {**{f'v{ix}': enc(rng.choice(ADVERSARIAL)) for ix in range(6)}, 'fa': enc(values.FN_A), 't': enc(values.FN_B)}}


def gen_scripts(rng, params):
    for _ in range(params):
        case = progs.random_case(rng, 4)
        case['globals'] = {name: enc(rng.choice(ADVERSARIAL)) for name in ('a', 'b', 'x', 'total')}
        ops = [['assign', rng.choice('abx'), f'{rng.choice("abx")} {rng.choice(OPS)} {rng.choice(["a", "b", "x", "0", "total"])}'] for _ in range(3)]
        for st in ops:
            case['prog'].insert(rng.randrange(len(case['prog']) + 1), st)
        yield 'script', case


def tasks(tier):
    quick = tier == 'quick'
    res = [(f'calls-{p}', gen_calls, (250 if quick else 6000, p, 16)) for p in range(16)]
    res += [('host', gen_host, None)]
    res += [(f'ops-{p}', gen_ops, (p, 4)) for p in range(4)]
    res += [(f'trees-{p}', gen_trees, 2500 if quick else 50000) for p in range(4)]
    res += [(f'scripts-{p}', gen_scripts, 600 if quick else 12000) for p in range(8)]
    return res
