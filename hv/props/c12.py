"""C12: int and float spellings of an integral number are interchangeable"""

import itertools

from hv import libargs, values
from hv.core import Skip, dec, enc, same
from specs.expr_spec import PREC
from specs.lib_spec import SIGS

TITLE = 'one number type'
RULE = ('every library function (clock, random and fetch excluded) and every operator on argument lists of 0-6 values of all types, run with the integral numbers '
        '(|n| < 1e15, recursively in containers) as ints, as floats, and mixed; results, failures and post-call arguments compared; short call sequences on shared '
        'containers; non-trivial: at least one integral number among the arguments')
EXCLUDED = {'datetimeNow', 'datetimeToday', 'mathRandom', 'systemFetch'}


def spell(val, kind, ctr=None):
    """The value with its integral numbers respelled: 'int', 'float', or alternating ('mixed', 'mixed2')"""
    if isinstance(val, bool):
        return val
    if isinstance(val, (int, float)):
        if val != val or abs(val) >= 1e15 or val != int(val) or (val == 0 and str(val) == '-0.0'):
            return val
        pick = kind
        if kind.startswith('mixed'):
            pick = 'int' if (next(ctr) % 2 == 0) == (kind == 'mixed') else 'float'
        return int(val) if pick == 'int' else float(val)
    if isinstance(val, list):
        return [spell(v, kind, ctr) for v in val]
    if isinstance(val, dict):
        return {k: spell(v, kind, ctr) for k, v in val.items()}
    return val


KINDS = ('int', 'float', 'mixed', 'mixed2')


def call(name, args):
    """(outcome, log): the library call as a script sees it"""
    from bare_script.library import EXPRESSION_FUNCTIONS, SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
    from bare_script.value import ValueArgsError  # pylint: disable=import-outside-toplevel
    from bare_script import BareScriptParserError, BareScriptRuntimeError  # pylint: disable=import-outside-toplevel
    log = []
    options = {'globals': {'gx': 1}, 'statementCount': 0, 'logFn': log.append, 'debug': True}
    fn = SCRIPT_FUNCTIONS.get(name) or EXPRESSION_FUNCTIONS[name]
    before = list(args)
    try:
        res = fn(args, options)
        outcome = ['value', res]
    except ValueArgsError as exc:
        outcome = ['failed', exc.return_value]
    except (BareScriptRuntimeError, BareScriptParserError) as exc:
        outcome = ['error', str(exc)]
    except Exception:  # pylint: disable=broad-exception-caught
        outcome = ['failed', None]
    return outcome, [before, {k: v for k, v in options['globals'].items()}], log


def same_outcome(a, b):
    if a[0] != b[0]:
        return False
    if callable(a[1]) and callable(b[1]):
        return same_outcome(probe(a[1]), probe(b[1]))
    if hasattr(a[1], 'pattern') and hasattr(b[1], 'pattern'):
        return (a[1].pattern, a[1].flags) == (b[1].pattern, b[1].flags)
    return same_deep(a[1], b[1])


def same_deep(a, b):
    return same(a, b) and type_shape(a) == type_shape(b)


def type_shape(val):
    """The script-visible type structure"""
    if isinstance(val, list):
        return [type_shape(v) for v in val]
    if isinstance(val, dict):
        return [(k, type_shape(v)) for k, v in val.items()]
    if isinstance(val, bool) or not isinstance(val, (int, float)):
        return type(val).__name__
    return 'number'


def probe(fn):
    try:
        return ['value', fn([7, 'p'], {'globals': {}})]
    except Exception:  # pylint: disable=broad-exception-caught
        return ['failed', None]


def check_call(case):
    base = [dec(arg) for arg in case['args']]
    name = case['name']
    first = None
    for kind in KINDS:
        ctr = itertools.count()
        args = [spell(arg, kind, ctr) for arg in base]
        got = call(name, args)
        if first is None:
            first = got
            continue
        if not same_outcome(got[0], first[0]):
            return f'result differs: {name}{tuple(base)!r} with numbers as {kind}: {got[0]!r}, as int: {first[0]!r}'
        if not same(got[1], first[1]):
            return f'effect differs: {name}{tuple(base)!r} with numbers as {kind} leaves {got[1]!r}, as int: {first[1]!r}'
        if got[2] != first[2]:
            return f'log differs: {name}{tuple(base)!r} with numbers as {kind}: {got[2]!r}, as int: {first[2]!r}'
    return None


def check_expr(case):
    from bare_script import BareScriptRuntimeError, evaluate_expression  # pylint: disable=import-outside-toplevel
    base = {k: dec(v) for k, v in case['vars'].items()}
    first = None
    for kind in KINDS:
        ctr = itertools.count()
        variables = {k: spell(v, kind, ctr) for k, v in base.items()}
        try:
            got = ['value', evaluate_expression(case['expr'], None, variables, True)]
        except BareScriptRuntimeError as exc:
            got = ['error', str(exc)]
        if first is None:
            first = got
        elif not same_outcome(got, first):
            return f'result differs: {case["expr"]!r} on {variables!r} ({kind}): {got!r}, as int: {first!r}'
    return None


def check_script(case):
    """The same call written in a script: literals are floats"""
    from bare_script import BareScriptRuntimeError, execute_script  # pylint: disable=import-outside-toplevel
    base = [dec(arg) for arg in case['args']]
    outcomes = []
    for kind in ('int', 'float'):
        globals_ = {f'v{ix}': spell(arg, kind) for ix, arg in enumerate(base)}
        args = []
        for ix, arg in enumerate(base):
            literal = kind == 'float' and isinstance(arg, (int, float)) and not isinstance(arg, bool) and arg == arg and 0 <= arg < 1e15
            args.append({'number': float(arg)} if literal else {'variable': f'v{ix}'})
        script = {'statements': [{'return': {'expr': {'function': {'name': case['name'], 'args': args}}}}]}
        try:
            outcome = ['value', execute_script(script, {'globals': globals_})]
        except BareScriptRuntimeError as exc:
            outcome = ['error', str(exc)]
        outcomes.append((outcome, [globals_[f'v{ix}'] for ix in range(len(base))]))
    if not same_outcome(outcomes[0][0], outcomes[1][0]):
        return f'result differs: {case["name"]}{tuple(base)!r} in a script with literals: {outcomes[1][0]!r}, with ints: {outcomes[0][0]!r}'
    if not same(outcomes[0][1], outcomes[1][1]):
        return f'effect differs: {case["name"]}{tuple(base)!r} in a script with literals: {outcomes[1][1]!r}, with ints: {outcomes[0][1]!r}'
    return None


def check_seq(case):
    """A sequence of calls on shared containers"""
    try:
        return check_seq_(case)
    except RecursionError as exc:
        raise Skip() from exc  # a container holds itself


def check_seq_(case):
    from bare_script.library import SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
    from bare_script.value import ValueArgsError  # pylint: disable=import-outside-toplevel
    first = None
    for kind in KINDS:
        ctr = itertools.count()
        store = [spell(dec(val), kind, ctr) for val in case['store']]
        trace = []
        for name, refs in case['calls']:
            args = [store[ref[1]] if ref[0] == 's' else spell(dec(ref[1]), kind, ctr) for ref in refs]
            try:
                res = ['value', SCRIPT_FUNCTIONS[name](args, {'globals': {}, 'statementCount': 0})]
                if isinstance(res[1], (list, dict)) and not any(res[1] is val for val in store):
                    store.append(res[1])
            except ValueArgsError as exc:
                res = ['failed', exc.return_value]
            except Exception:  # pylint: disable=broad-exception-caught
                res = ['failed', None]
            if len(repr(res)) > 5000:
                raise Skip()
            from copy import deepcopy  # pylint: disable=import-outside-toplevel
            trace.append([res[0], deepcopy(res[1])])
        if first is None:
            first = (trace, store)
            continue
        for ix, (got, want) in enumerate(zip(trace, first[0])):
            if not same_outcome(got, want):
                return f'result differs: call {ix} {case["calls"][ix]!r} on {case["store"]!r} ({kind}): {got!r}, as int: {want!r}'
        if not same(store, first[1]):
            return f'effect differs: {case["calls"]!r} on {case["store"]!r} ({kind}) leaves {store!r}, as int: {first[1]!r}'
    return None


CHECKS = {'call': check_call, 'expr': check_expr, 'script': check_script, 'seq': check_seq}


def has_integral(val):
    if isinstance(val, bool):
        return False
    if isinstance(val, (int, float)):
        return val == val and abs(val) < 1e15 and val == int(val)
    if isinstance(val, list):
        return any(has_integral(v) for v in val)
    if isinstance(val, dict):
        return any(has_integral(v) for v in val.values())
    return False


def nontrivial(kind, case):
    if kind in ('call', 'script'):
        return any(has_integral(dec(arg)) for arg in case['args'])
    return True


def shrink(kind, case):
    if kind in ('call', 'script'):
        for ix in range(len(case['args'])):
            yield {**case, 'args': case['args'][:ix] + case['args'][ix + 1:]}
            arg = case['args'][ix]
            if isinstance(arg, list):
                for jx in range(len(arg)):
                    yield {**case, 'args': case['args'][:ix] + [arg[:jx] + arg[jx + 1:]] + case['args'][ix + 1:]}
    if kind == 'seq':
        for ix in range(len(case['calls'])):
            yield {**case, 'calls': case['calls'][:ix] + case['calls'][ix + 1:]}


def names_of(part, parts):
    return [name for ix, name in enumerate(sorted(set(SIGS) - EXCLUDED)) if ix % parts == part]


def gen_calls(rng, params):
    count, part, parts = params
    for name in names_of(part, parts):
        for _ in range(count):
            args = libargs.rand_args(rng, name)
            yield 'call', {'name': name, 'args': [enc(arg) for arg in args]}
            if rng.random() < 0.25:
                yield 'script', {'name': name, 'args': [enc(arg) for arg in args]}
        # Every small number in every number position, with plausible other arguments
        for ix, param in enumerate(SIGS[name][0]):
            for value in [-2, -1, 0, 1, 2, 3, 4, 5, 10, 16, 36, 2.5, 1000] + ([] if name in libargs.SIZED or name == 'stringFromCharCode' else [10 ** 6, 10 ** 14, -10 ** 14, 999999999999999]):
                if not param['rest'] and param['type'] not in (None, 'number'):
                    continue
                args = libargs.rand_args(rng, name, False)
                while len(args) <= ix:
                    args = libargs.rand_args(rng, name, False) if rng.random() < 0.5 else args + [rng.choice([1, 'a', None, [1, 2]])]
                if name == 'datetimeNew' and value in (-2, -1, 0) and ix == 0:
                    continue
                args[ix] = value
                yield 'call', {'name': name, 'args': [enc(arg) for arg in args]}
                yield 'script', {'name': name, 'args': [enc(arg) for arg in args]}


def gen_alias(rng, params):
    from bare_script.library import EXPRESSION_FUNCTIONS  # pylint: disable=import-outside-toplevel
    from specs.eval_spec import ALIASES  # pylint: disable=import-outside-toplevel
    for alias in sorted(EXPRESSION_FUNCTIONS):
        name = ALIASES.get(alias)
        if name is None or name in EXCLUDED:
            continue
        for _ in range(params):
            yield 'call', {'name': alias, 'args': [enc(arg) for arg in libargs.rand_args(rng, name)]}


NUMS = [0, 1, -1, 2, 3, 5, -7, 10, 100, 1000, 86400000, 2 ** 31, 2 ** 32, 10 ** 14, 999999999999999, -999999999999999, 0.5, -2.5, 1 / 3, 94906267, 30, 63]
OTHERS = [None, True, False, '', 'a', '1', [], [1], [1, [2]], {'a': 1}, values.DATES[0], values.DATES[1], values.FN_A]


def gen_ops(_rng, _params):
    for left, right in itertools.product(NUMS + OTHERS, repeat=2):
        for op in PREC:
            yield 'expr', {'expr': {'binary': {'op': op, 'left': {'variable': 'l'}, 'right': {'variable': 'r'}}}, 'vars': {'l': enc(left), 'r': enc(right)}}
    for value in NUMS + OTHERS:
        for op in '!-':
            if not (op == '-' and value == 0):
                yield 'expr', {'expr': {'unary': {'op': op, 'expr': {'variable': 'l'}}}, 'vars': {'l': enc(value)}}
        yield 'expr', {'expr': {'function': {'name': 'if', 'args': [{'variable': 'l'}, {'string': 'y'}, {'string': 'n'}]}}, 'vars': {'l': enc(value)}}


SEQ_NAMES = [name for name in SIGS if name.startswith(('array', 'object', 'string')) or name in ('dataTop', 'dataSort', 'dataFilter', 'dataAggregate', 'jsonStringify', 'mathMax', 'systemCompare', 'systemIs')]


def gen_seq(rng, params):
    for _ in range(params):
        store = [rng.choice(values.ARRAYS + [[3, 1, 2], [1, 2, 3, 4]]) for _ in range(2)] + [rng.choice(values.OBJECTS)]
        calls = []
        for _ in range(rng.randrange(2, 7)):
            name = rng.choice(SEQ_NAMES)
            refs = []
            for param, arg in zip(SIGS[name][0] + [SIGS[name][0][-1]] * 3, libargs.rand_args(rng, name, False)):
                if param['type'] in ('array', 'object') and rng.random() < 0.8:
                    refs.append(['s', rng.choice([0, 1]) if param['type'] == 'array' else 2])
                elif param['type'] is None and rng.random() < 0.1:
                    refs.append(['s', rng.randrange(3)])
                else:
                    refs.append(['v', enc(arg)])
            calls.append([name, refs])
        yield 'seq', {'store': [enc(val) for val in store], 'calls': calls}


def tasks(tier):
    quick = tier == 'quick'
    res = [(f'calls-{p}', gen_calls, (500 if quick else 4000, p, 16)) for p in range(16)]
    res += [('ops', gen_ops, None), ('alias', gen_alias, 60 if quick else 1500)]
    res += [(f'seq-{p}', gen_seq, 4000 if quick else 30000) for p in range(4)]
    return res
