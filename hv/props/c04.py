"""C04: scoping, calling convention, host globals"""

import itertools

from hv import progs, values
from hv.core import FN_A, FN_B, HvFn, Skip, dec, enc
from specs.eval_spec import ALIASES, NonFinite, SpecEval, Undefined
from specs.expr_spec import ref_parse

TITLE = 'scoping and calls'
RULE = ('random programs with up to 4 functions (0-3 parameters, optional last-argument array) whose names collide with globals, parameters, library and host '
        'names, called with 0-5 arguments directly, through variables, systemPartial and arraySort/arrayIndexOf callbacks; host globals that shadow library '
        'names; every parameter-count x argument-count pair; oracle: an independent interpreter with its own name resolution; non-trivial: a script function is called')


class SpecRun(progs.BigStep):
    """Big-step interpreter whose expressions are evaluated by the reference evaluator (own name resolution)"""

    def ev(self, text, local):
        from bare_script import BareScriptRuntimeError  # pylint: disable=import-outside-toplevel
        expr = self.cache.get(text)
        if expr is None:
            expr = self.cache[text] = ref_parse(text)
        try:
            return SpecEval(self.options['globals'], local, None, self.options, (BareScriptRuntimeError,)).ev(expr)
        except Undefined as exc:
            raise BareScriptRuntimeError(f'Undefined function "{exc}"') from exc


def check_prog(case):
    from bare_script import BareScriptRuntimeError, execute_script, parse_script  # pylint: disable=import-outside-toplevel
    from bare_script.library import SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
    text = progs.text_of(case['prog'])
    results = []
    for real in (True, False):
        env = progs.Env(case, 120)
        glob = env.options['globals']
        caller = dict(glob)
        try:
            if real:
                outcome = ['return', progs.show(execute_script(parse_script(text), env.options))]
            else:
                for name, fn in SCRIPT_FUNCTIONS.items():
                    if name not in glob:
                        glob[name] = fn
                outcome = ['return', progs.show(SpecRun(env.options).run(case['prog']))]
        except BareScriptRuntimeError as exc:
            outcome = ['error', str(exc)]
        except NonFinite:
            raise Skip() from None
        if real:
            if env.options['globals'] is not glob:
                return 'globals object replaced: the caller-supplied globals object is not the one in use'
            missing = [name for name in caller if name not in glob]
            if missing:
                return f'globals lost: {missing!r}'
        results.append((outcome, env.log, progs.final_globals(env.options, {}, SCRIPT_FUNCTIONS)))
    for name, got, want in zip(('result', 'log', 'globals'), results[0], results[1]):
        if got != want:
            return f'{name} differs: got {got!r}, the documented scoping gives {want!r}; script: {text!r}'
    return None


def check_inject(case):
    """Library injection: never overwrites a caller-supplied name; adds every other one"""
    from bare_script import execute_script  # pylint: disable=import-outside-toplevel
    from bare_script.library import SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
    supplied = {name: dec(value) for name, value in case['globals'].items()}
    if case['mode'] == 'none':
        execute_script({'statements': []})
        return None
    options = {} if case['mode'] == 'empty' else ({'globals': None} if case['mode'] == 'null' else {'globals': dict(supplied)})
    given = options.get('globals')
    if execute_script({'statements': [{'expr': {'name': 'hvX', 'expr': {'number': 1}}}]}, options) is not None:
        return 'result differs: script without return gave a value'
    glob = options.get('globals')
    if given is not None and glob is not given:
        return 'globals object replaced'
    if not isinstance(glob, dict) or glob.get('hvX') != 1:
        return f'top-level assignment not in the globals object: {glob!r:.200}'
    if given is not None:
        for name, value in supplied.items():
            if glob[name] is not given[name] or progs.show(glob[name]) != progs.show(value):
                return f'caller-supplied global {name!r} overwritten'
    for name, fn in SCRIPT_FUNCTIONS.items():
        if (given is None or name not in supplied) and glob.get(name) is not fn:
            return f'library function {name!r} not injected'
    extra = set(glob) - set(SCRIPT_FUNCTIONS) - set(supplied) - {'hvX'}
    if extra and given is not None:
        return f'unexpected globals {extra!r}'
    return None


def check_bind(case):
    """Parameter binding for one (parameters, last-argument array, arguments) triple, through several call paths"""
    params, last, args = case['params'], case['last'], [dec(arg) for arg in case['args']]
    from bare_script import execute_script  # pylint: disable=import-outside-toplevel
    want = {}
    for ix, param in enumerate(params):
        if last and ix == len(params) - 1:
            want[param] = args[ix:]
        else:
            want[param] = args[ix] if ix < len(args) else None
    body = [{'expr': {'expr': {'function': {'name': 'see', 'args': [{'variable': p} for p in params]}}}}, {'return': {'expr': {'string': 'ret'}}}]
    function = {'name': 'f', 'statements': body}
    if params:
        function['args'] = params
    if last is not None:
        function['lastArgArray'] = last
    seen = []
    for path in ('direct', 'variable', 'local', 'partial', 'host'):
        call_args = [{'variable': f'hvArg{ix}'} for ix in range(len(args))]
        glob = {f'hvArg{ix}': arg for ix, arg in enumerate(args)}
        glob['see'] = lambda a, _o: seen.append(list(a))
        for p in params:
            glob.setdefault(p, 'GLOBAL')
        before = {p: glob[p] for p in params}
        statements = [{'function': function}]
        if path == 'direct':
            call = {'function': {'name': 'f', 'args': call_args}}
        elif path == 'variable':
            statements.append({'expr': {'name': 'hvG', 'expr': {'variable': 'f'}}})
            call = {'function': {'name': 'hvG', 'args': call_args}}
        elif path == 'local':
            statements.append({'function': {'name': 'hvL', 'args': ['fn'], 'statements': [{'return': {'expr': {'function': {'name': 'fn', 'args': call_args}}}}]}})
            call = {'function': {'name': 'hvL', 'args': [{'variable': 'f'}]}}
        elif path == 'partial':
            if not args:
                continue
            statements.append({'expr': {'name': 'hvP', 'expr': {'function': {'name': 'systemPartial', 'args': [{'variable': 'f'}, call_args[0]]}}}})
            call = {'function': {'name': 'hvP', 'args': call_args[1:]}}
        else:
            glob['hvHost'] = lambda a, o: a[0](list(a[1:]), o)
            call = {'function': {'name': 'hvHost', 'args': [{'variable': 'f'}] + call_args}}
        statements.append({'return': {'expr': call}})
        seen.clear()
        result = execute_script({'statements': statements}, {'globals': glob})
        if result != 'ret' or len(seen) != 1:
            return f'call failed: path {path}: result {result!r}, seen {seen!r}'
        got = dict(zip(params, seen[0]))
        if progs.show([got[p] for p in params]) != progs.show([want[p] for p in params]):
            return f'binding differs: path {path}: parameters {got!r}, expected {want!r}'
        if any(glob[p] is not before[p] for p in params if not p.startswith('hvArg')):
            return f'binding leaked: path {path}: a parameter changed a global'
    return None


CHECKS = {'prog': check_prog, 'inject': check_inject, 'bind': check_bind}


def nontrivial(kind, case):
    return kind != 'prog' or any(st[0] == 'func' for st in case['prog'])


def shrink(kind, case):
    if kind == 'prog':
        for prog in progs.shrink_prog(case['prog']):
            yield {**case, 'prog': prog}
        for name in case['globals']:
            yield {**case, 'globals': {k: v for k, v in case['globals'].items() if k != name}}


NAMES = ['a', 'b', 'f0', 'f1', 'f2', 'f3', 'arrayNew', 'arrayLength', 'mathMax', 'p', 'q', 'len', 'abs']


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.n = itertools.count()
        self.fns = [f'f{ix}' for ix in range(rng.randrange(1, 5))]
        if rng.random() < 0.25:
            self.fns[-1] = rng.choice(['arrayLength', 'mathMax', 'arrayNew'])

    def arg(self, depth):
        rng = self.rng
        roll = rng.random()
        if roll < 0.5:
            return rng.choice(NAMES)
        if roll < 0.75 or depth <= 0:
            return rng.choice(['1', "'s'", 'null', 'true', '2'])
        return self.call(depth - 1)

    def call(self, depth=1):
        rng = self.rng
        roll = rng.random()
        args = ', '.join(self.arg(depth) for _ in range(rng.randrange(0, 6)))
        if roll < 0.6:
            return f'{rng.choice(self.fns + ["a", "p"])}({args})'
        if roll < 0.7:
            return f'systemPartial({rng.choice(self.fns + ["a"])}, {self.arg(0)}{rng.choice(["", ", 5"])})'
        if roll < 0.78:
            return f"arraySort(arrayNew('b', 'c', 'a'), {rng.choice(self.fns)})"
        if roll < 0.85:
            return f'arrayIndexOf(arrayNew(1, 2), {rng.choice(self.fns)})'
        if roll < 0.9:
            return f"systemGlobalGet('{rng.choice(NAMES)}', 'dflt')"
        if roll < 0.95:
            return f"systemGlobalSet('{rng.choice(NAMES)}', {self.arg(0)})"
        return f'{rng.choice(["arrayNew", "arrayLength", "mathMax", "len", "abs", "nope"])}({args})'

    def stmt(self):
        rng = self.rng
        roll = rng.random()
        if roll < 0.4:
            return ['assign', rng.choice(NAMES), self.arg(1) if rng.random() < 0.5 else self.call()]
        if roll < 0.75:
            return ['expr', f"out('{next(self.n)}', {', '.join(self.arg(1) for _ in range(rng.randrange(1, 4)))})"]
        return ['expr', self.call()]

    def program(self):
        rng = self.rng
        prog = []
        for name in self.fns:
            params = rng.sample(['p', 'q', 'a', 'f0', 'arrayNew', 'b'], rng.randrange(0, 4))
            body = [['expr', 'tick()'], ['expr', f"out({', '.join([repr(name)] + params)})"]] + [self.stmt() for _ in range(rng.randrange(0, 4))]
            last = bool(params) and rng.random() < 0.3
            if last and rng.random() < 0.5:
                # The remaining arguments are an array of this call: change it, keep it
                body.insert(rng.randrange(2, len(body) + 1), ['expr', f'arrayPush({params[-1]}, {self.arg(0)})'])
                body.append(['expr', f"out({params[-1]})"])
            if rng.random() < 0.7:
                body.append(['return', params[-1] if last and rng.random() < 0.4 else self.arg(1)])
            prog.append(['func', name, params, last, body])
        for _ in range(rng.randrange(2, 7)):
            prog.insert(rng.randrange(len(prog) + 1) if rng.random() < 0.3 else len(prog), self.stmt())
        return prog


HOST = [enc(v) for v in (1, 'host', None, False, [1, 2], {'k': 1})] + [enc(FN_A), enc(FN_B)]


def gen_progs(rng, params):
    for _ in range(params):
        prog = Gen(rng).program()
        yield 'prog', {'prog': prog, 'globals': {name: rng.choice(HOST) for name in NAMES if rng.random() < 0.3}, 'max': 5000}


def gen_bind(rng, _params):
    for n in range(4):
        for last in (None, False, True):
            for m in range(6):
                for variant in range(2):
                    args = [enc(ix * 10 + 1) for ix in range(m)] if variant == 0 else [enc(rng.choice(values.POOL)) for _ in range(m)]
                    yield 'bind', {'params': ['x', 'y', 'z'][:n], 'last': last, 'args': args}


def gen_inject(rng, params):
    from bare_script.library import SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
    names = sorted(SCRIPT_FUNCTIONS)
    for mode in ('none', 'empty', 'null'):
        yield 'inject', {'mode': mode, 'globals': {}}
    for name in names:
        yield 'inject', {'mode': 'given', 'globals': {name: rng.choice(HOST)}}
        yield 'inject', {'mode': 'given', 'globals': {name: None}}
    for _ in range(params):
        yield 'inject', {'mode': 'given', 'globals': {name: rng.choice(HOST) for name in rng.sample(names + ['a', 'b', 'if', 'null', 'abs', 'len'], rng.randrange(0, 12))}}


def gen_shadow(_rng, _params):
    """A script-defined function replaces a library function of the same name; host bindings win over library functions and built-ins"""
    from bare_script.library import SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
    for name in sorted(SCRIPT_FUNCTIONS) + sorted(ALIASES):
        for host in (None, enc(FN_A), enc(7)):
            prog = [['expr', f"out('0', {name})"], ['func', name, ['x'], False, [['return', "'mine'"]]], ['expr', f"out('1', {name}(1))"],
                    ['assign', 'v', name], ['expr', "out('2', v(2))"]]
            yield 'prog', {'prog': prog, 'globals': {name: host} if host is not None else {}}
        yield 'prog', {'prog': [['expr', f"out('0', {name}('h'))"]], 'globals': {name: enc(FN_A)}}
        yield 'prog', {'prog': [['func', 'f', [name], False, [['return', f'{name}(1, 2)']]], ['expr', "out('0', f(hvFnB), f(null), f())"]], 'globals': {'hvFnB': enc(FN_B)}}


def tasks(tier):
    quick = tier == 'quick'
    res = [(f'progs-{p}', gen_progs, 2500 if quick else 50000) for p in range(12)]
    res += [(f'bind-{p}', gen_bind, None) for p in range(1 if quick else 8)]
    res += [('inject', gen_inject, 200 if quick else 4000), ('shadow', gen_shadow, None)]
    return res
