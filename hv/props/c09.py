"""C09: the statement budget is exact, complete and monotone"""

import itertools

from hv import progs
from hv.core import HvFn, dec, enc
from specs.model_spec import IncludeFailed, ModelRun, OverBudget

TITLE = 'exactness of the statement budget'
RULE = ('random programs (structured code, functions called directly, through library callbacks - sort comparators, search callbacks, partials, data expressions with '
        'and without variables - and included scripts nested to depth 3), each run under every limit 1..N+1, 0, N+7 and the default; oracle: an independent counting '
        'model interpreter; non-trivial: N > 1')


def host(case):
    log = []
    left = {key: list(dec(vals)) for key, vals in case.get('sched', {}).items()}

    def cond(args, _options):
        vals = left.get(args[0])
        value = vals.pop(0) if vals else None
        log.append(('c', args[0], progs.show(value)))
        return value

    def out(args, _options):
        log.append(('out', [progs.show(arg) for arg in args]))
        return args[0] if args else None

    globals_ = {'c': HvFn('c', cond), 'out': HvFn('out', out)}
    for name, value in case.get('globals', {}).items():
        globals_[name] = dec(value)
    options = {'globals': globals_, 'logFn': lambda text: log.append(('log', text)),
               'fetchFn': lambda request: case.get('files', {}).get(request['url'])}
    return log, globals_, options


def final(globals_):
    from bare_script.library import SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
    return {name: progs.show(value) for name, value in globals_.items()
            if not (name in SCRIPT_FUNCTIONS and value is SCRIPT_FUNCTIONS[name]) and not isinstance(value, HvFn)}


def run_spec(case, script, limit):
    from bare_script import BareScriptRuntimeError  # pylint: disable=import-outside-toplevel
    from bare_script.library import SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
    log, globals_, options = host(case)
    for name, fn in SCRIPT_FUNCTIONS.items():
        globals_.setdefault(name, fn)
    options['maxStatements'] = 0
    options['statementCount'] = 0
    run = ModelRun(options, limit, case.get('files', {}), lambda include, _base: include['url'])
    try:
        outcome = ['return', progs.show(run.run(script['statements']))]
    except OverBudget:
        outcome = ['budget']
    except IncludeFailed:
        outcome = ['include']
    except BareScriptRuntimeError as exc:
        outcome = ['error', str(exc)]
    return outcome, log, final(globals_), run.count


def run_real(case, script, limit):
    from bare_script import BareScriptRuntimeError, execute_script  # pylint: disable=import-outside-toplevel
    log, globals_, options = host(case)
    if limit is not None:
        options['maxStatements'] = limit
    message = f'Exceeded maximum script statements ({limit})'
    try:
        outcome = ['return', progs.show(execute_script(script, options))]
    except BareScriptRuntimeError as exc:
        outcome = ['budget'] if str(exc) == message else ['include'] if str(exc).startswith('Include of') else ['error', str(exc)]
    return outcome, log, final(globals_), options['statementCount']


MAX = 3000


def check_budget(case):
    from bare_script import parse_script  # pylint: disable=import-outside-toplevel
    script = parse_script(case['text'])
    full = run_spec(case, script, MAX)
    total = full[3]
    if full[0] == ['budget']:
        limits = [1, 2, 3, 5, 10, 50, 200, MAX]
    else:
        limits = list(range(1, min(total, 45) + 2)) + [total - 1, total, total + 1, total + 7, 0, None]
        if case.get('floats'):
            limits += [float(total), total + 0.5, float(max(total - 1, 1))]
    for limit in dict.fromkeys(limits):
        if limit is not None and limit < 0:
            continue
        want = run_spec(case, script, limit or 0) if limit and limit < total else full
        got = run_real(case, script, limit)
        for name, g, w in zip(('result', 'log', 'globals'), got, want):
            if g != w:
                return f'{name} differs: under limit {limit} (the unlimited run takes {total} statements) got {g!r}, expected {w!r}; script {case["text"]!r} files {case.get("files")!r}'
        counts = (limit, limit + 1) if want[0] == ['budget'] else (total,)
        if got[3] not in counts:
            return f'statement count differs: {got[3]} after a run of {total} statements under limit {limit}; script {case["text"]!r} files {case.get("files")!r}'
        if want[0] == ['budget'] and full[0] != ['budget'] and got[1] != full[1][:len(got[1])]:
            return f'log is not a prefix: under limit {limit}: {got[1]!r} of {full[1]!r}'
    return None


CHECKS = {'budget': check_budget}


def shrink(_kind, case):
    from bare_script import BareScriptParserError, parse_script  # pylint: disable=import-outside-toplevel
    lines = case['text'].split('\n')
    for size in (6, 4, 3, 2, 1):
        for ix in range(len(lines) - size + 1):
            text = '\n'.join(lines[:ix] + lines[ix + size:])
            try:
                parse_script(text)
            except BareScriptParserError:
                continue
            yield {**case, 'text': text}
    for name in case.get('files', {}):
        flines = case['files'][name].split('\n')
        for ix in range(len(flines)):
            text = '\n'.join(flines[:ix] + flines[ix + 1:])
            try:
                parse_script(text)
            except BareScriptParserError:
                continue
            yield {**case, 'files': {**case['files'], name: text}}


FUNCS = '''function one(a):
    out('one', a)
    return a
endfunction
function cmp(a, b):
    if a < b:
        return -1
    endif
    return if(a > b, 1, 0)
endfunction
function isTwo(v):
    x = v
    return x == 2
endfunction
function dbl(v, w):
    return v * 2 + if(w, w, 0)
endfunction
function rec(n):
    if n > 0:
        return rec(n - 1)
    endif
    return n
endfunction
function inc():
    include 'c.bare'
endfunction'''
CALLS = ["out(one(1))", "out(arraySort(arrayNew(3, 1, 2), cmp))", "out(arrayIndexOf(arrayNew(1, 2, 3), isTwo))", "out(arrayLastIndexOf(arrayNew(1, 2, 3), isTwo))",
         "p = systemPartial(dbl, 4)\nout(p(1))", "out(dataFilter(arrayNew(objectNew('a', 1), objectNew('a', 2)), 'isTwo(a)'))",
         "out(dataFilter(arrayNew(objectNew('a', 1), objectNew('a', 2)), 'isTwo(a + k)', objectNew('k', 1)))",
         "out(dataCalculatedField(arrayNew(objectNew('a', 1), objectNew('a', 2)), 'b', 'dbl(a)'))",
         "out(dataCalculatedField(arrayNew(objectNew('a', 1), objectNew('a', 2)), 'b', 'dbl(a, k)', objectNew('k', 3)))",
         "out(dataJoin(arrayNew(objectNew('a', 1)), arrayNew(objectNew('b', 2)), 'dbl(a)', 'one(b)', false, objectNew('k', 1)))",
         "out(dataJoin(arrayNew(objectNew('a', 1)), arrayNew(objectNew('b', 2)), 'dbl(a)', 'one(b)'))", "out(rec(3))", "x = if(c('i'), one(1), rec(1))", "c('s') && one(2)", "c('s') || one(3)",
         "include 'a.bare'", "include 'a.bare'\ninclude 'b.bare'", "include 'b.bare'", "inc()", "fromA(5)", "i = 0\nwhile c('w'):\n    i = i + 1\nendwhile", "for v in arrayNew(1, 2):\n    one(v)\nendfor",
         "if c('t'):\n    one(7)\nelse:\n    one(8)\nendif", "systemLog('hello')", "lab:\njumpif (c('j')) lab", "out(one(one(one(1))))", "jump skip\none(9)\nskip:", "nope(1)", "boom = arraySort(1, cmp)",
         "out(arrayIndexOf(arrayNew(1, 2), systemPartial(isTwo)))", "arraySort(arrayNew(2, 1), systemPartial(cmp))", "return one(1)"]
FILE_A = ["one(10)", "x = 1", "function fromA(v):\n    one(v)\n    return v\nendfunction", "include 'b.bare'", "return", "out('a')", "while c('aw'):\n    one(1)\nendwhile", "dbl(2)"]
FILE_B = ["y = 2", "out('b')", "one(11)", "include 'c.bare'", "return 5", "inc()"]
FILE_C = ["z = 3", "out('c')", "one(12)", "rec(2)", ""]


def gen_mixed(rng, params):
    for _ in range(params):
        calls = [rng.choice(CALLS) for _ in range(rng.randrange(1, 6))]
        calls = [call.replace('skip', f'skip{ix}').replace('lab', f'lab{ix}') for ix, call in enumerate(calls)]
        text = FUNCS + '\n' + '\n'.join(calls)
        files = {name: '\n'.join(rng.choice(pool) for _ in range(rng.randrange(0, 4))) for name, pool in (('a.bare', FILE_A), ('b.bare', FILE_B), ('c.bare', FILE_C))}
        if rng.random() < 0.1:
            del files[rng.choice(list(files))]
        yield 'budget', {'text': text, 'files': files, 'sched': progs.random_sched(rng, ['i', 's', 'w', 't', 'j', 'aw']), 'floats': rng.random() < 0.1}


def gen_each(_rng, _params):
    files = {'a.bare': "one(10)\ninclude 'b.bare'\nx = 1", 'b.bare': "out('b')\nreturn\nout('c')", 'c.bare': "z = 3\none(12)"}
    for call, tail in itertools.product(CALLS, ('', "\nout('after')\none(1)")):
        for pre in ('', "one('pre')\n", "include 'a.bare'\n"):
            yield 'budget', {'text': FUNCS + '\n' + pre + call + tail, 'files': files, 'sched': {'w': [1, 1, 0], 's': [1], 'i': [], 't': [1], 'j': [1, 1]}}
    for text in ('', '# nothing', 'a = 1', 'return', 'l:\njump l', 'while true:\nendwhile'):
        yield 'budget', {'text': text}


def gen_random(rng, params):
    for _ in range(params):
        case = progs.random_case(rng, 3)
        text = progs.text_of(case['prog']).replace('tick()', 'out()')
        yield 'budget', {'text': text, 'sched': case['sched'], 'globals': case['globals']}


def gen_self(_rng, _params):
    """Recursion, includes that include themselves"""
    yield 'budget', {'text': "include 'a.bare'", 'files': {'a.bare': "n = n + 1\nif n < 5:\n    include 'a.bare'\nendif\nout(n)"}, 'globals': {'n': 0}}
    yield 'budget', {'text': "include 'a.bare'\nfromA(1)\nout(2)", 'files': {'a.bare': "function fromA(v):\n    include 'b.bare'\n    out(v)\nendfunction", 'b.bare': "out('b')\nm = 1"}}
    yield 'budget', {'text': "include 'a.bare'\ninclude 'b.bare'\nout(2)", 'files': {'a.bare': "out('a')\nnope(1)", 'b.bare': "out('b')\nm = 1"}}


def tasks(tier):
    quick = tier == 'quick'
    res = [('each', gen_each, None), ('self', gen_self, None)]
    res += [(f'mixed-{p}', gen_mixed, 80 if quick else 2500) for p in range(12)]
    res += [(f'random-{p}', gen_random, 50 if quick else 1500) for p in range(8)]
    return res
