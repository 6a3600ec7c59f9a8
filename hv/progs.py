"""Structured BareScript programs: AST, text rendering, big-step reference interpreter, generators"""

import itertools

from specs.value_spec import spec_boolean
from hv.core import HvFn, dec, enc


#
# AST: nested lists (JSON-able)
#   ['expr', text] ['assign', name, text] ['return', text|None] ['break'] ['continue']
#   ['if', [[cond, body], ...], else_body|None] ['while', cond, body] ['for', var, index|None, values, body]
#   ['func', name, args, last_arg, body]
#

def render(prog, indent=0, out=None):
    """The program's lines"""
    top = out is None
    if top:
        out = []
    pad = '    ' * indent
    for st in prog:
        kind = st[0]
        if kind == 'expr':
            out.append(pad + st[1])
        elif kind == 'assign':
            out.append(f'{pad}{st[1]} = {st[2]}')
        elif kind == 'return':
            out.append(pad + 'return' + (f' {st[1]}' if st[1] is not None else ''))
        elif kind in ('break', 'continue'):
            out.append(pad + kind)
        elif kind == 'if':
            for ix, (cond, body) in enumerate(st[1]):
                out.append(f'{pad}{"if" if ix == 0 else "elif"} {cond}:')
                render(body, indent + 1, out)
            if st[2] is not None:
                out.append(pad + 'else:')
                render(st[2], indent + 1, out)
            out.append(pad + 'endif')
        elif kind == 'while':
            out.append(f'{pad}while {st[1]}:')
            render(st[2], indent + 1, out)
            out.append(pad + 'endwhile')
        elif kind == 'for':
            index = f', {st[2]}' if st[2] is not None else ''
            out.append(f'{pad}for {st[1]}{index} in {st[3]}:')
            render(st[4], indent + 1, out)
            out.append(pad + 'endfor')
        elif kind == 'func':
            out.append(f'{pad}function {st[1]}({", ".join(st[2])}{"..." if st[3] else ""}):')
            render(st[4], indent + 1, out)
            out.append(pad + 'endfunction')
        elif kind == 'include':
            out.append(f'{pad}include {st[1]}')
        else:
            raise ValueError(kind)
    return out


def text_of(prog):
    return '\n'.join(render(prog))


def blocks_of(st):
    """The child blocks of a statement"""
    if st[0] == 'if':
        return [body for _, body in st[1]] + ([st[2]] if st[2] is not None else [])
    if st[0] == 'while':
        return [st[2]]
    if st[0] == 'for':
        return [st[4]]
    if st[0] == 'func':
        return [st[4]]
    return []


def depth_of(prog):
    return max((1 + max((depth_of(b) for b in blocks_of(st)), default=0) if blocks_of(st) else 0 for st in prog), default=0)


def shrink_prog(prog):
    """Smaller programs"""
    for ix in range(len(prog)):
        yield prog[:ix] + prog[ix + 1:]
    for ix, st in enumerate(prog):
        if st[0] in ('if', 'while', 'for'):
            for body in blocks_of(st):
                yield prog[:ix] + body + prog[ix + 1:]
        if st[0] == 'if':
            for b in range(1, len(st[1])):
                yield prog[:ix] + [['if', st[1][:b] + st[1][b + 1:], st[2]]] + prog[ix + 1:]
            if st[2] is not None:
                yield prog[:ix] + [['if', st[1], None]] + prog[ix + 1:]
            for b, (cond, body) in enumerate(st[1]):
                for nb in shrink_prog(body):
                    yield prog[:ix] + [['if', st[1][:b] + [[cond, nb]] + st[1][b + 1:], st[2]]] + prog[ix + 1:]
            if st[2] is not None:
                for nb in shrink_prog(st[2]):
                    yield prog[:ix] + [['if', st[1], nb]] + prog[ix + 1:]
        elif st[0] == 'while':
            for nb in shrink_prog(st[2]):
                yield prog[:ix] + [['while', st[1], nb]] + prog[ix + 1:]
        elif st[0] == 'for':
            for nb in shrink_prog(st[4]):
                yield prog[:ix] + [['for', st[1], st[2], st[3], nb]] + prog[ix + 1:]
        elif st[0] == 'func':
            for nb in shrink_prog(st[4]):
                yield prog[:ix] + [['func', st[1], st[2], st[3], nb]] + prog[ix + 1:]


#
# The reference (big-step) semantics. Expressions are parsed and evaluated by the real parse_expression and
# evaluate_expression: this oracle is about statements only.
#

class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, value):
        super().__init__()
        self.value = value


class BigStep:
    def __init__(self, options):
        from bare_script import evaluate_expression, parse_expression  # pylint: disable=import-outside-toplevel
        self.evaluate = evaluate_expression
        self.parse = parse_expression
        self.options = options
        self.cache = {}

    def ev(self, text, local):
        expr = self.cache.get(text)
        if expr is None:
            expr = self.cache[text] = self.parse(text)
        return self.evaluate(expr, self.options, local, False)

    def run(self, prog):
        try:
            self.block(prog, None)
        except _Return as ret:
            return ret.value
        return None

    def call(self, name, params, last_arg, body, args):
        local = {}
        for ix, param in enumerate(params):
            if last_arg and ix == len(params) - 1:
                local[param] = list(args[ix:])
            else:
                local[param] = args[ix] if ix < len(args) else None
        try:
            self.block(body, local)
        except _Return as ret:
            return ret.value
        return None

    def assign(self, name, value, local):
        if local is not None:
            local[name] = value
        else:
            self.options['globals'][name] = value

    def block(self, prog, local):
        for st in prog:
            self.stmt(st, local)

    def stmt(self, st, local):
        kind = st[0]
        if kind == 'expr':
            self.ev(st[1], local)
        elif kind == 'assign':
            self.assign(st[1], self.ev(st[2], local), local)
        elif kind == 'return':
            raise _Return(self.ev(st[1], local) if st[1] is not None else None)
        elif kind == 'break':
            raise _Break()
        elif kind == 'continue':
            raise _Continue()
        elif kind == 'if':
            for cond, body in st[1]:
                if spec_boolean(self.ev(cond, local)):
                    self.block(body, local)
                    return
            if st[2] is not None:
                self.block(st[2], local)
        elif kind == 'while':
            while spec_boolean(self.ev(st[1], local)):
                try:
                    self.block(st[2], local)
                except _Break:
                    break
                except _Continue:
                    pass
        elif kind == 'for':
            values = self.ev(st[3], local)
            length = len(values) if isinstance(values, list) else 0
            for ix in range(length):
                if st[2] is not None:
                    self.assign(st[2], ix, local)
                self.assign(st[1], values[ix], local)
                try:
                    self.block(st[4], local)
                except _Break:
                    break
                except _Continue:
                    pass
            else:
                if st[2] is not None and length:
                    self.assign(st[2], length, local)
        elif kind == 'func':
            _, name, params, last_arg, body = st
            fn = lambda args, _options: self.call(name, params, last_arg, body, args)
            self.options['globals'][name] = fn
        else:
            raise ValueError(kind)


#
# Host environment: schedule-driven conditions, log, tick limit
#

class Env:
    """One run's host environment (fresh for each run)"""

    def __init__(self, case, max_ticks=250):
        from bare_script import BareScriptRuntimeError  # pylint: disable=import-outside-toplevel
        self.log = []
        self.left = {key: list(dec(values)) for key, values in case.get('sched', {}).items()}
        self.ticks = 0

        def cond(args, _options):
            self.ticks += 1
            if self.ticks > max_ticks:
                raise BareScriptRuntimeError('tick limit')
            key = args[0] if args else None
            values = self.left.get(key)
            value = values.pop(0) if values else None
            self.log.append(('c', key, show(value)))
            return value

        def tick(_args, _options):
            self.ticks += 1
            if self.ticks > max_ticks:
                raise BareScriptRuntimeError('tick limit')

        def out(args, _options):
            self.log.append(('out', [show(arg) for arg in args]))
            return args[0] if args else None

        self.host = {'c': HvFn('c', cond), 'tick': HvFn('tick', tick), 'out': HvFn('out', out)}
        globals_ = dict(self.host)
        for name, value in case.get('globals', {}).items():
            globals_[name] = dec(value)
        self.options = {
            'globals': globals_,
            'logFn': lambda text: self.log.append(('log', text)),
            'maxStatements': case.get('max', 20000)
        }


def show(value, depth=0):
    """A comparable rendering of a value (script functions are equal to script functions)"""
    if isinstance(value, list):
        return ['L'] + [show(v, depth + 1) for v in value] if depth < 8 else 'L...'
    if isinstance(value, dict):
        return ['D'] + [[k, show(v, depth + 1)] for k, v in value.items()] if depth < 8 else 'D...'
    if isinstance(value, bool) or value is None or isinstance(value, str):
        return value
    if isinstance(value, (int, float)):
        return ['num', float(value) if value == value else 'nan'] if abs(value) < 1e300 or value != value else ['num', repr(value)]
    if callable(value):
        return '<host ' + value.hv_name + '>' if isinstance(value, HvFn) else '<function>'
    return enc(value)


def final_globals(options, host, library):
    res = {}
    for name, value in options['globals'].items():
        if name.startswith('__bareScript') or name in host:
            continue
        if name in library and value is library[name]:
            continue
        res[name] = show(value)
    return res


def run_real(text, case):
    """parse_script + execute_script -> (outcome, log, globals)"""
    from bare_script import parse_script, execute_script, BareScriptRuntimeError  # pylint: disable=import-outside-toplevel
    from bare_script.library import SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
    env = Env(case)
    script = parse_script(text)
    try:
        outcome = ['return', show(execute_script(script, env.options))]
    except BareScriptRuntimeError as exc:
        outcome = ['error', str(exc)]
    return outcome, env.log, final_globals(env.options, env.host, SCRIPT_FUNCTIONS)


def run_ref(prog, case):
    from bare_script import BareScriptRuntimeError  # pylint: disable=import-outside-toplevel
    from bare_script.library import SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
    env = Env(case)
    for name, fn in SCRIPT_FUNCTIONS.items():
        env.options['globals'].setdefault(name, fn)
    env.options['maxStatements'] = 0
    env.options['statementCount'] = 0
    try:
        outcome = ['return', show(BigStep(env.options).run(prog))]
    except BareScriptRuntimeError as exc:
        outcome = ['error', str(exc)]
    return outcome, env.log, final_globals(env.options, env.host, SCRIPT_FUNCTIONS)


#
# Generators
#

SHAPES = ('if', 'if-else', 'if-elif', 'if-elif-else', 'while', 'for', 'for-index')

VALUES9 = [None, True, False, 0, 1, -0.0, 2.5, '', 'a', [], [1], {}, {'k': 1}]


def shape_prog(shape_tree, ctr, in_loop, jump):
    """A block with one construct for each (shape, child trees, jumps) node"""
    shape, children = shape_tree
    n = next(ctr)
    inner_loop = shape in ('while', 'for', 'for-index')

    def body(i):
        child = children[i] if i < len(children) else None
        res = [['expr', f"out('b{n}.{i}')"]]
        if child is not None:
            res += shape_prog(child, ctr, in_loop or inner_loop, jump)
        elif (in_loop or inner_loop) and jump is not None:
            # A (conditional) break/continue in the innermost body
            kind = 'break' if jump[0] == 'b' else 'continue'
            if jump[1] == '0':
                res += [[kind], ['expr', f"out('dead{n}')"]]
            else:
                res += [['if', [[f"c('j{n}.{i}')", [[kind]]]], None], ['expr', f"out('after{n}.{i}')"]]
        return res

    if shape == 'if':
        return [['if', [[f"c('i{n}')", body(0)]], None], ['expr', f"out('e{n}')"]]
    if shape == 'if-else':
        return [['if', [[f"c('i{n}')", body(0)]], body(1)], ['expr', f"out('e{n}')"]]
    if shape == 'if-elif':
        return [['if', [[f"c('i{n}')", body(0)], [f"c('k{n}')", body(1)]], None], ['expr', f"out('e{n}')"]]
    if shape == 'if-elif-else':
        return [['if', [[f"c('i{n}')", body(0)], [f"c('k{n}')", body(1)]], body(2)], ['expr', f"out('e{n}')"]]
    if shape == 'while':
        return [['while', f"c('w{n}')", body(0)], ['expr', f"out('e{n}')"]]
    if shape == 'for':
        return [['for', f'v{n}', None, f"out(arrayNew('x{n}', 'y{n}', 'z{n}'))", body(0) + [['expr', f'out(v{n})']]], ['expr', f"out('e{n}')"]]
    return [['for', f'v{n}', f'i{n}', f"out(arrayNew('x{n}', 'y{n}'))", body(0) + [['expr', f'out(i{n}, v{n})']]], ['expr', f"out('e{n}')"]]


N_BODIES = {'if': 1, 'if-else': 2, 'if-elif': 2, 'if-elif-else': 3, 'while': 1, 'for': 1, 'for-index': 1}


def shape_trees(depth):
    """Every nesting shape: one child per node, in every body position"""
    for shape in SHAPES:
        if depth <= 1:
            yield (shape, [])
        else:
            yield (shape, [])
            for child in shape_trees(depth - 1):
                for pos in range(N_BODIES[shape]):
                    yield (shape, [None] * pos + [child])


def random_sched(rng, keys):
    truthy = [True, 1, 2.5, 'a', [1], {}, {'k': 1}]
    falsy = [None, False, 0, -0.0, '', []]
    res = {}
    for key in keys:
        res[key] = [enc(rng.choice(truthy if rng.random() < 0.6 else falsy)) for _ in range(rng.randrange(0, 5))]
    return res


def cond_keys(prog):
    import re  # pylint: disable=import-outside-toplevel
    return sorted(set(re.findall(r"c\('([^']+)'\)", text_of(prog))))


class ProgGen:
    """Random structured programs"""

    def __init__(self, rng, max_depth=5, funcs=3, names=('a', 'b', 'x', 'total')):
        self.rng = rng
        self.max_depth = max_depth
        self.n = itertools.count()
        self.names = list(names)
        self.n_funcs = rng.randrange(0, funcs + 1)
        self.fns = []
        self.in_func = False

    def expr(self, local):
        rng = self.rng
        n = next(self.n)
        names = self.names + local
        choice = rng.randrange(10)
        if choice < 2:
            return rng.choice(['0', '1', '2', "'s'", 'null', 'true', 'false', '3.5'])
        if choice < 4:
            return rng.choice(names)
        if choice < 5:
            return f'{rng.choice(names)} + {rng.choice(["1", "2", rng.choice(names)])}'
        if choice < 6 and self.fns:
            return f'{rng.choice(self.fns)}({", ".join(rng.choice(names + ["1", "2"]) for _ in range(rng.randrange(0, 4)))})'
        if choice < 7:
            return f"out('x{n}', {rng.choice(names)})"
        if choice < 8:
            return f'arrayNew({", ".join(rng.choice(names + ["1", "2"]) for _ in range(rng.randrange(0, 4)))})'
        if choice < 9:
            return f'if({rng.choice(names)}, {rng.choice(names)}, 7)'
        return f"({rng.choice(names)} {rng.choice(['==', '<', '&&', '||', '!='])} {rng.choice(names + ['1'])})"

    def cond(self, local):
        rng = self.rng
        n = next(self.n)
        choice = rng.randrange(8)
        if choice < 5:
            return f"c('q{n}')"
        if choice < 6:
            return f"!c('q{n}')"
        if choice < 7:
            return f"c('q{n}') && {rng.choice(self.names + local)}"
        return self.expr(local)

    def block(self, depth, in_loop, local, size=None):
        rng = self.rng
        size = rng.randrange(0, 4) if size is None else size
        return [self.stmt(depth, in_loop, local) for _ in range(size)]

    def stmt(self, depth, in_loop, local):
        rng = self.rng
        roll = rng.random()
        if in_loop and roll < 0.14:
            return [rng.choice(['break', 'continue'])]
        if roll < 0.18:
            return ['return', rng.choice([None, self.expr(local), self.expr(local)])]
        if depth >= self.max_depth or roll < 0.5:
            n = next(self.n)
            kind = rng.randrange(3)
            if kind == 0:
                return ['assign', rng.choice(self.names + local), self.expr(local)]
            if kind == 1:
                return ['expr', f"out('s{n}')"]
            return ['expr', f'systemLog({self.expr(local)})']
        if depth > 0 and not self.in_func and rng.random() < 0.04:
            # A function defined inside a block (at global scope)
            name = f'fi{next(self.n)}'
            self.in_func = True
            body = [['expr', 'tick()']] + self.block(max(depth, 3), False, ['p0'], 2)
            self.in_func = False
            self.fns.append(name)
            return ['func', name, ['p0'], False, body]
        kind = rng.randrange(4)
        if kind <= 1:
            branches = [[self.cond(local), self.block(depth + 1, in_loop, local)] for _ in range(rng.choice([1, 1, 2, 3]))]
            return ['if', branches, self.block(depth + 1, in_loop, local) if rng.random() < 0.5 else None]
        if kind == 2:
            roll = rng.random()
            if roll < 0.2:
                return ['while', 'true', [['expr', 'tick()'], ['if', [[f"c('q{next(self.n)}')", []]], [['break']]]] + self.block(depth + 1, True, local)]
            return ['while', self.cond(local), [['expr', 'tick()']] + self.block(depth + 1, True, local)]
        n = next(self.n)
        values = rng.choice([
            f"arrayNew({', '.join(str(k) for k in range(rng.randrange(0, 4)))})", f"c('q{n}')", rng.choice(self.names + local), f"out(arrayNew('p', 'q'))"
        ])
        return ['for', f'v{n}' if rng.random() < 0.7 else rng.choice(['u', 'w']), f'i{n}' if rng.random() < 0.4 else None, values,
                [['expr', 'tick()']] + self.block(depth + 1, True, local + ([f'v{n}']))]

    def program(self):
        rng = self.rng
        prog = []
        for ix in range(self.n_funcs):
            params = [f'p{k}' for k in range(rng.randrange(0, 4))]
            if rng.random() < 0.2 and params:
                params[0] = rng.choice(self.names)
            last = bool(params) and rng.random() < 0.25
            name = f'fn{ix}'
            self.in_func = True
            body = [['expr', 'tick()']] + self.block(1, False, params, rng.randrange(1, 4))
            self.in_func = False
            self.fns.append(name)
            prog.append(['func', name, params, last, body])
        prog += self.block(0, False, [], rng.randrange(1, 6))
        if self.fns:
            prog.insert(rng.randrange(len(prog) + 1), ['expr', f"out('call', {rng.choice(self.fns)}(1, 'z'))"])
        # Functions are defined before or after other statements
        return prog


def random_case(rng, max_depth=5, funcs=3):
    gen = ProgGen(rng, max_depth, funcs)
    prog = gen.program()
    globals_ = {name: enc(rng.choice(VALUES9)) for name in gen.names if rng.random() < 0.6}
    return {'prog': prog, 'globals': globals_, 'sched': random_sched(rng, cond_keys(prog))}
