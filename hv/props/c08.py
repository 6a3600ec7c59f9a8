"""C08: jump-level models execute by the documented statement semantics; the model is never modified"""

import copy
import itertools

from hv import progs
from hv.core import HvFn, Skip, dec, enc
from specs.model_spec import ModelRun, OverBudget, UnknownLabel, is_script

TITLE = 'statement semantics of models'
RULE = ('every statement list up to the stated length over labels, jumps (conditional or not, to known, duplicate and unknown labels), expressions, returns and '
        'functions with their own statement lists, plus random hand-built models up to 40 statements and parsed programs; oracle: an independent model '
        'interpreter; the model is deep-compared before/after and every run repeated; non-trivial: at least one jump, return or function')


def host(case):
    log = []
    left = {key: list(dec(vals)) for key, vals in case.get('sched', {}).items()}

    def cond(args, _options):
        vals = left.get(args[0])
        value = vals.pop(0) if vals else None
        log.append(('c', args[0], progs.show(value)))
        return value

    def out(args, _options):
        log.append(('out', [progs.show(arg) for arg in args]))
        return args[0] if args else None

    globals_ = {'c': HvFn('c', cond), 'out': HvFn('out', out)}
    for name, value in case.get('globals', {}).items():
        globals_[name] = dec(value)
    return log, globals_


def final(globals_):
    from bare_script.library import SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
    return {name: progs.show(value) for name, value in globals_.items()
            if not (name in SCRIPT_FUNCTIONS and value is SCRIPT_FUNCTIONS[name]) and not isinstance(value, HvFn)}


def run_spec(case, limit=0):
    from bare_script import BareScriptRuntimeError  # pylint: disable=import-outside-toplevel
    from bare_script.library import SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
    log, globals_ = host(case)
    for name, fn in SCRIPT_FUNCTIONS.items():
        globals_.setdefault(name, fn)
    options = {'globals': globals_, 'logFn': lambda text: log.append(('log', text)), 'maxStatements': 0, 'statementCount': 0}
    run = ModelRun(options, limit)
    try:
        outcome = ['return', progs.show(run.run(copy.deepcopy(case['model'])['statements']))]
    except UnknownLabel as exc:
        outcome = ['error', f'Unknown jump label "{exc}"']
    except OverBudget:
        outcome = ['budget']
    except BareScriptRuntimeError as exc:
        outcome = ['error', str(exc)]
    return outcome, log, final(globals_), run.count


def run_real(case, model, limit):
    from bare_script import BareScriptRuntimeError, execute_script  # pylint: disable=import-outside-toplevel
    log, globals_ = host(case)
    options = {'globals': globals_, 'logFn': lambda text: log.append(('log', text)), 'maxStatements': limit}
    try:
        outcome = ['return', progs.show(execute_script(model, options))]
    except BareScriptRuntimeError as exc:
        outcome = ['budget'] if str(exc).startswith('Exceeded maximum script statements') else ['error', str(exc)]
    return outcome, log, final(globals_), options['statementCount']


def check_model(case):
    model = case['model']
    if not is_script(model):
        raise Skip()
    limit = case.get('limit', 400)
    want = run_spec(case, limit)
    before = copy.deepcopy(model)
    for attempt in ('first', 'second'):
        got = run_real(case, model, limit)
        if model != before:
            return f'model modified: by the {attempt} run'
        for name, g, w in zip(('result', 'log', 'globals', 'statement count'), got, want):
            if g != w:
                return f'{name} differs: {"" if attempt == "first" else "second run: "}got {g!r}, the model semantics gives {w!r}; model {model!r}'
    return None


CHECKS = {'model': check_model}


def nontrivial(_kind, case):
    return any(not ('expr' in st or 'label' in st) for st in case['model']['statements'])


def shrink(_kind, case):
    def lists(statements):
        for ix in range(len(statements)):
            yield statements[:ix] + statements[ix + 1:]
            st = statements[ix]
            if 'function' in st:
                for body in lists(st['function']['statements']):
                    yield statements[:ix] + [{'function': {**st['function'], 'statements': body}}] + statements[ix + 1:]
    for statements in lists(case['model']['statements']):
        yield {**case, 'model': {'statements': statements}}


def call(name, *args):
    return {'function': {'name': name, 'args': list(args)}}


STR = lambda text: {'string': text}
VAR = lambda name: {'variable': name}
NUM = lambda num: {'number': num}
COND = lambda key: call('c', STR(key))
OUT = lambda key: {'expr': {'expr': call('out', STR(key))}}

ATOMS = [
    {'label': 'A'}, {'label': 'B'}, {'jump': {'label': 'A'}}, {'jump': {'label': 'B', 'expr': COND('x')}}, {'jump': {'label': 'A', 'expr': COND('y')}},
    {'jump': {'label': 'Z', 'expr': COND('z')}}, OUT('o'), {'expr': {'name': 'v', 'expr': COND('v')}}, {'return': {}}, {'return': {'expr': VAR('v')}},
    {'function': {'name': 'f', 'args': ['v'], 'statements': [{'jump': {'label': 'A', 'expr': COND('fj')}}, OUT('f'), {'label': 'A'}, {'return': {'expr': VAR('v')}}]}},
    {'expr': {'name': 'w', 'expr': call('f', NUM(7))}}
]
SCHEDS = [{}, {'x': [True], 'y': [True], 'z': [], 'v': [5], 'fj': [True]}, {'x': [False, 1], 'y': ['a', 0], 'z': [0, 1], 'v': [[], None], 'fj': ['', True]}]


def gen_small(rng, params):
    length, part, parts, scheds = params
    for ix, atoms in enumerate(itertools.product(range(len(ATOMS)), repeat=length)):
        if ix % parts != part:
            continue
        for sched in SCHEDS[:scheds] if scheds > 1 else [SCHEDS[ix // parts % 3]]:
            yield 'model', {'model': {'statements': [ATOMS[a] for a in atoms]}, 'sched': sched, 'limit': 60}


def rand_expr(rng, depth=2):
    roll = rng.random()
    if depth == 0 or roll < 0.45:
        return rng.choice([NUM(1), NUM(0), NUM(2.5), STR('s'), STR(''), VAR('a'), VAR('b'), VAR('p'), VAR('null'), VAR('true'), VAR('false'), COND(rng.choice('xyzw')), call('out', VAR('a')), call('out')])
    if roll < 0.65:
        return {'binary': {'op': rng.choice(['+', '-', '==', '<', '&&', '||', '!=', '*']), 'left': rand_expr(rng, depth - 1), 'right': rand_expr(rng, depth - 1)}}
    if roll < 0.75:
        return {'unary': {'op': rng.choice('!-'), 'expr': rand_expr(rng, depth - 1)}}
    if roll < 0.8:
        return {'group': rand_expr(rng, depth - 1)}
    if roll < 0.85:
        return {'function': {'name': rng.choice(['out', 'f', 'g', 'arrayNew'])}}
    if roll < 0.88:
        return call('nope')
    return call(rng.choice(['f', 'g', 'arrayNew', 'if', 'f', 'arrayLength', 'systemPartial']), *[rand_expr(rng, depth - 1) for _ in range(rng.randrange(0, 4))])


def rand_statements(rng, size, depth):
    labels = rng.sample(['L1', 'L2', 'L3', 'L4', 'toString', ''], 3)
    res = []
    for _ in range(size):
        roll = rng.random()
        if roll < 0.22:
            res.append({'label': rng.choice(labels)})
        elif roll < 0.45:
            jump = {'label': rng.choice(labels + ['LX'] if rng.random() < 0.2 else labels)}
            if rng.random() < 0.75:
                jump['expr'] = rand_expr(rng, 1)
            res.append({'jump': jump})
        elif roll < 0.5:
            res.append({'return': {'expr': rand_expr(rng)} if rng.random() < 0.7 else {}})
        elif roll < 0.58 and depth > 0:
            fn = {'name': rng.choice('fg'), 'statements': rand_statements(rng, rng.randrange(0, 8), depth - 1)}
            if rng.random() < 0.7:
                fn['args'] = rng.choice([['p'], ['a', 'p'], ['p', 'q', 'a'], ['p', 'p']])
            if rng.random() < 0.3:
                fn['lastArgArray'] = rng.random() < 0.7
            if rng.random() < 0.2:
                fn['async'] = rng.random() < 0.5
            res.append({'function': fn})
        else:
            st = {'expr': rand_expr(rng)}
            if rng.random() < 0.6:
                st['name'] = rng.choice(['a', 'b', 'p', 'f', 'null'] if rng.random() < 0.1 else ['a', 'b', 'p'])
            # Optional-member order must not matter
            res.append({'expr': dict(reversed(list(st.items())))})
    return res


def gen_random(rng, params):
    for _ in range(params):
        model = {'statements': rand_statements(rng, rng.randrange(1, 41), 2)}
        yield 'model', {'model': model, 'sched': progs.random_sched(rng, 'xyzw'), 'globals': {'a': enc(rng.choice([1, 'g', None]))}, 'limit': rng.choice([150, 400, 37])}


def gen_parsed(rng, params):
    from bare_script import parse_script  # pylint: disable=import-outside-toplevel
    for _ in range(params):
        case = progs.random_case(rng, 4)
        model = parse_script(progs.text_of(case['prog']).replace('tick()', 'out()'))
        yield 'model', {'model': model, 'sched': case['sched'], 'globals': case['globals'], 'limit': 500}


def tasks(tier):
    quick = tier == 'quick'
    res = [(f'small-{n}', gen_small, (n, 0, 1, 3)) for n in (1, 2, 3)]
    res += [(f'small-4-{p}', gen_small, (4, p, 8, 1 if quick else 3)) for p in range(8)]
    if not quick:
        res += [(f'small-5-{p}', gen_small, (5, p, 16, 1)) for p in range(16)]
    res += [(f'random-{p}', gen_random, 1500 if quick else 25000) for p in range(8)]
    res += [(f'parsed-{p}', gen_parsed, 300 if quick else 4000) for p in range(4)]
    return res
