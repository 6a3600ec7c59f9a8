"""The state of a script run as terms, and the contracts of the functions that change it.

A World is everything a run can observe or change outside the current frame: globals, log, host state, every reachable container. The contract of evaluating an
expression (or calling a function value) is: it ends with a value or a control exception, both functions of (world, expression, options, locals), and leaves
a world that is a function of the same. So two executions agree exactly if they evaluate the same things in the same order the same number of times.
"""

import z3

from bare_script import parser as parser_mod
from bare_script import runtime as runtime_mod
from bare_script import value as value_mod
from pyvc.engine import DGET, DHAS, Base, Bound, Closure, EObj, ExcObj, Lit, Model, Opaque, Partial, SDict, SList, SV, Unsupported, ival, str_term
from pyvc.terms import SCRIPT_KINDS, V, Content, DContent, Node, World

WCOUNT = z3.Function('with_count', World, z3.IntSort(), World)      # the world as seen by a callee: the counter goes with it
COUNT = z3.Function('count_after', World, z3.IntSort())
SETG = z3.Function('set_global', World, V, V, World)
GLOBALS = z3.Function('globals', World, DContent)
LOG = z3.Function('log', World, V, World)

EV_KIND = z3.Function('ev_kind', World, Node, Node, z3.IntSort())
EV_VAL = z3.Function('ev_value', World, Node, Node, V)
EV_WORLD = z3.Function('ev_world', World, Node, Node, World)
ARGS_KIND = z3.Function('args_kind', World, Node, Node, z3.IntSort())
ARGS_VAL = z3.Function('args_values', World, Node, Node, Content)
ARGS_WORLD = z3.Function('args_world', World, Node, Node, World)
CALL_KIND = z3.Function('call_kind', World, V, Content, Node, z3.IntSort())
CALL_VAL = z3.Function('call_value', World, V, Content, Node, V)
CALL_WORLD = z3.Function('call_world', World, V, Content, Node, World)
CALL_TEXT = z3.Function('call_error', World, V, Content, Node, z3.StringSort())
EXEC_KIND = z3.Function('exec_kind', World, Node, Node, z3.IntSort())
EXEC_VAL = z3.Function('exec_value', World, Node, Node, V)
EXEC_WORLD = z3.Function('exec_world', World, Node, Node, World)
CONTEXT = z3.Function('context', V, DContent, z3.BoolSort(), z3.BoolSort(), Node)     # urlFn, locals, has locals, builtins

RUNTIME_ERROR = runtime_mod.BareScriptRuntimeError
INCLUDE_ERROR = getattr(runtime_mod, '_IncludeParserError', None) or parser_mod.BareScriptParserError


class OtherError(Exception):
    """Any other exception of a called function"""


class Globals(EObj):
    """The globals object: its content belongs to the world"""

    py_class = dict

    def __init__(self):
        self.ref = z3.Int('globals_ref')

    def pending(self, ip):
        """The writes since the last call, newest first, and the base world"""
        world = ip.world
        writes = []
        while z3.is_app(world) and world.decl().name() in ('set_global', 'log', 'with_count'):
            if world.decl().name() == 'set_global':
                writes.append((world.arg(1), world.arg(2)))
            world = world.arg(0)
        return writes, world

    def lookup(self, ip, key):
        kt = ip.to_v(key)
        writes, world = self.pending(ip)
        for wkey, wvalue in writes:
            if ip.branch(kt == wkey):
                return True, lift_v(ip, wvalue)
        content = GLOBALS(world)
        if ip.branch(DHAS(content, kt)):
            sv = SV('val', DGET(content, kt))
            if sv.t.get_id() not in ip.kinds:
                ip.set_kinds(sv, SCRIPT_KINDS)
            return True, sv
        return False, None

    def contains(self, ip, item):
        return self.lookup(ip, item)[0]

    def getitem(self, ip, key):
        found, value = self.lookup(ip, key)
        if not found:
            ip.raise_(KeyError, key)
        return value

    def setitem(self, ip, key, value):
        ip.notes.append(('setg', key, value))
        ip.world = SETG(ip.world, ip.to_v(key), ip.to_v(value))

    def getattr(self, ip, name):
        if name == 'get':
            return Model(self.get)
        if name == 'copy':
            return Model(lambda ip2, args, kwargs: self.dict_copy(ip2))
        raise Unsupported(f'globals.{name}')

    def dict_copy(self, ip):
        return Overlay(self)

    def get(self, ip, args, kwargs):
        found, value = self.lookup(ip, args[0])
        return value if found else (args[1] if len(args) > 1 else None)

    def truth(self, ip):
        return ip.branch(z3.Bool('globals_nonempty'))

    def to_v(self, ip):
        return V.dict(self.ref)


class Overlay(EObj):
    """A copy of the globals, with what other objects add to it"""

    py_class = dict

    def __init__(self, base):
        self.base = base
        self.layers = []

    def getattr(self, ip, name):
        if name == 'update':
            return Model(self.update)
        raise Unsupported(f'{name} of a copy of the globals')

    def update(self, ip, args, kwargs):
        if kwargs or len(args) != 1:
            raise Unsupported('update of a copy of the globals')
        self.layers.append(ip.unwrap(args[0]))

    def truth(self, ip):
        return True


def lift_v(ip, t):
    return SV('val', t)


class Options(EObj):
    """The execution options: globals, statementCount and urlFn are tracked, the other members are unknown but fixed"""

    py_class = dict

    def __init__(self, ip, count=None, overrides=None, globals_=None):
        self.globals = globals_ if globals_ is not None else Globals()
        self.count = count if count is not None else SV('int', z3.Int('count0'))
        self.overrides = dict(overrides or {})
        self.has_globals = True

    KINDS = {'urlFn': ('none', 'fn'), 'fetchFn': ('none', 'fn'), 'logFn': ('fn',), 'debug': ('none', 'bool'), 'systemPrefix': ('none', 'str'),
             'maxStatements': ('int', 'flt')}

    def lookup(self, ip, key):
        if not isinstance(key, str):
            raise Unsupported('symbolic option name')
        if key == 'globals':
            return self.has_globals, self.globals if self.has_globals else None
        if key == 'statementCount':
            return True, self.count
        if key in self.overrides:
            return True, self.overrides[key]
        if ip.branch(z3.Bool(f'has_option_{key}')):
            sv = SV('val', z3.Const(f'option_{key}', V))
            if sv.t.get_id() not in ip.kinds:
                ip.set_kinds(sv, frozenset(self.KINDS.get(key, SCRIPT_KINDS)))
            return True, sv
        return False, None

    def contains(self, ip, item):
        return self.lookup(ip, item)[0]

    def getitem(self, ip, key):
        found, value = self.lookup(ip, key)
        if not found:
            ip.raise_(KeyError, key)
        return value

    def setitem(self, ip, key, value):
        ip.effects += 1
        if key == 'statementCount':
            self.count = value
        elif key == 'globals':
            self.globals, self.has_globals = value, True
        elif key == 'urlFn':
            self.overrides[key] = value
        else:
            ip.world = SETG(ip.world, ip.to_v(f'option {key}'), ip.to_v(value))
            self.overrides[key] = value

    def getattr(self, ip, name):
        if name == 'get':
            return Model(self.get)
        if name == 'copy':
            return Model(lambda ip2, args, kwargs: self.dict_copy(ip2))
        raise Unsupported(f'options.{name}')

    def get(self, ip, args, kwargs):
        found, value = self.lookup(ip, args[0])
        return value if found else (args[1] if len(args) > 1 else None)

    def dict_copy(self, ip):
        result = Options(ip, self.count, self.overrides, self.globals)
        result.has_globals = self.has_globals
        return result

    def url_term(self, ip):
        """urlFn as the callees see it"""
        if 'urlFn' in self.overrides:
            return fn_term(ip, self.overrides['urlFn'])
        return z3.If(z3.Bool('has_option_urlFn'), z3.Const('option_urlFn', V), V.none)

    def count_term(self):
        return ival(self.count) if isinstance(self.count, int) else self.count.t


URL_QUERY = z3.String('url_query')


def fn_term(ip, fn):
    """A URL function as callees see it: by its result on an arbitrary location (two functions that agree on every location are the same)"""
    if isinstance(fn, (Partial, Closure, Model)):
        text = str_term(ip.unwrap(ip.call(fn, [SV('str', URL_QUERY)])))
        if text is None:
            raise Unsupported('result of a URL function')
        return V.fn(z3.Function('url_function', z3.StringSort(), z3.IntSort())(text))
    return ip.to_v(fn)


class Locals(SDict):
    """The local variables of a call"""


def context(ip, options, locals_, builtins):
    """The context of an evaluation, as a term"""
    url = options.url_term(ip) if options is not None else V.none
    if locals_ is None:
        lt, has = z3.Const('no_locals', DContent), z3.BoolVal(False)
    else:
        lt, has = locals_.term(ip), z3.BoolVal(True)
    if isinstance(builtins, SV):
        bt = builtins.t
    elif isinstance(builtins, bool):
        bt = z3.BoolVal(builtins)
    else:
        raise Unsupported('builtins argument')
    return CONTEXT(url, lt, has, bt)


def enter(ip, options):
    return WCOUNT(ip.world, options.count_term()) if options is not None else ip.world


def leave(ip, options, world):
    ip.world = world
    if options is not None:
        options.count = SV('int', COUNT(world))


def control(ip, kind, text, extra=()):
    """Fork on how a callee ends; raises its exception"""
    cases = [kind == 1, kind == 2] + [kind == 3 + ix for ix in range(len(extra))]
    pick = ip.choose([z3.And(*[z3.Not(case) for case in cases])] + cases)
    if pick == 0:
        return
    if pick == 1:
        raise_exc(ip, RUNTIME_ERROR, text)
    if pick == 2:
        raise_exc(ip, INCLUDE_ERROR, text)
    extra[pick - 3](ip)


def raise_exc(ip, cls, text):
    from pyvc.engine import PyExc
    raise PyExc(ExcObj(cls, [SV('str', text)], {'text': SV('str', text), 'error': SV('str', text), 'tag': text}))


def bind_args(args, kwargs, names, defaults):
    values = dict(zip(names, args))
    values.update(kwargs)
    for name, default in defaults.items():
        values.setdefault(name, default)
    return [values[name] for name in names]


def evaluate_contract(ip, args, kwargs):
    """evaluate_expression(expr, options=None, locals_=None, builtins=True)"""
    expr, options, locals_, builtins = bind_args(args, kwargs, ('expr', 'options', 'locals_', 'builtins'), {'options': None, 'locals_': None, 'builtins': True})
    if not isinstance(expr, Opaque):
        # A sub-expression that is not opaque: executed
        return ip.call_closure(ip.closure_of(runtime_mod.evaluate_expression), args, kwargs)
    ctx = context(ip, options, locals_, builtins)
    win = enter(ip, options)
    leave(ip, options, EV_WORLD(win, expr.t, ctx))
    control(ip, EV_KIND(win, expr.t, ctx), z3.Function('ev_error', World, Node, Node, z3.StringSort())(win, expr.t, ctx))
    sv = SV('val', EV_VAL(win, expr.t, ctx))
    if sv.t.get_id() not in ip.kinds:
        ip.set_kinds(sv, SCRIPT_KINDS)
    return sv


def call_contract(ip, fn, args, kwargs):
    """A call of a function value: fn(args list, options)"""
    if kwargs or len(args) != 2 or not isinstance(ip.unwrap(args[0]), SList):
        raise Unsupported('calling convention of a function value')
    arg_list, options = ip.unwrap(args[0]), args[1]
    if options is not None and not isinstance(options, Options):
        raise Unsupported('options of a call')
    url = context(ip, options, None, True)
    content = arg_list.content.term(ip)
    ip.notes.append(('call', fn, arg_list))
    ft = ip.to_v(fn)
    win = enter(ip, options)
    leave(ip, options, CALL_WORLD(win, ft, content, url))
    text = CALL_TEXT(win, ft, content, url)

    def args_error(ip2):
        from pyvc.engine import PyExc
        value = SV('val', CALL_VAL(win, ft, content, url))
        if value.t.get_id() not in ip2.kinds:
            ip2.set_kinds(value, SCRIPT_KINDS)
        raise PyExc(ExcObj(value_mod.ValueArgsError, [SV('str', text)], {'return_value': value, 'text': SV('str', text)}))

    def parser_error(ip2):
        raise_exc(ip2, parser_mod.BareScriptParserError, text)

    extra = [args_error, lambda ip2: raise_exc(ip2, OtherError, text)]
    if INCLUDE_ERROR is not parser_mod.BareScriptParserError:
        extra.append(parser_error)
    control(ip, CALL_KIND(win, ft, content, url), text, extra)
    sv = SV('val', CALL_VAL(win, ft, content, url))
    if sv.t.get_id() not in ip.kinds:
        ip.set_kinds(sv, SCRIPT_KINDS)
    return sv


def call_value(ip, fn, args, kwargs):
    """A symbolic callable: the logger takes a text, everything else is a function value"""
    if fn.t.eq(z3.Const('option_logFn', V)):
        ip.world = LOG(ip.world, ip.to_v(args[0]))
        return None
    return call_contract(ip, fn, args, kwargs)


class NodeList(EObj):
    """An opaque list of sub-expressions"""

    py_class = list

    def __init__(self, t):
        self.t = t
        self.n = z3.Function('node_count', Node, z3.IntSort())(t)

    def length(self, ip):
        ip.assume(self.n >= 0)
        return SV('int', self.n)

    def truth(self, ip):
        return ip.branch(self.n > 0)

    def at(self, ip, k):
        return Opaque('expr', z3.Function('node_at', Node, z3.IntSort(), Node)(self.t, ival(k)))

    def space(self, ip):
        from pyvc.engine import Space
        ip.assume(self.n >= 0)
        return Space(self.n, self.at)

    def getitem(self, ip, key):
        k = ip.int_of(key)
        if ip.branch(z3.And(ival(k) >= 0, ival(k) < self.n)):
            return self.at(ip, k)
        if ip.branch(z3.And(ival(k) < 0, ival(k) >= -self.n)):
            return self.at(ip, k + self.n)
        return ip.raise_(IndexError, 'list index out of range')

    def getattr(self, ip, name):
        raise Unsupported(f'{name} of a list of expressions')


def arguments_contract(ip, frame, node, iterable):
    """[evaluate(arg) for arg in args] over an opaque list: every element is evaluated once, in order - the fold ARGS of the evaluation contract"""
    from pyvc import interp
    from pyvc.engine import PathEnd, PyExc
    if not isinstance(iterable, NodeList):
        return NotImplemented
    options, locals_, builtins = ip.eval_context
    ctx = context(ip, options, locals_, builtins)
    saved_world, saved_count = ip.world, options.count if options is not None else None
    if ip.pick(['element', 'fold']) == 'element':
        ip.world = ip.fresh_world()
        if options is not None:
            options.count = ip.fresh('int', 'count')
        world = enter(ip, options)
        arg = Opaque('expr', z3.Const('generic_arg', Node))
        inner = interp.comp_frame(frame, node)
        if node.generators[0].ifs:
            ip.prove(False, 'every argument is evaluated (the comprehension has a filter)')
        interp.assign(ip, inner, node.generators[0].target, arg)
        try:
            value = interp.ev(ip, inner, node.elt)
        except PyExc as exc:
            ip.prove(EV_KIND(world, arg.t, ctx) != 0, 'an argument evaluation fails only if the argument does')
            raise PathEnd() from exc
        ip.prove(ip.to_v(value) == EV_VAL(world, arg.t, ctx), 'an argument is the value of its expression')
        ip.prove(z3.And(ip.world == EV_WORLD(world, arg.t, ctx)), 'an argument is evaluated exactly once')
        raise PathEnd()
    ip.world = saved_world
    win = enter(ip, options)
    leave(ip, options, ARGS_WORLD(win, iterable.t, ctx))
    control(ip, ARGS_KIND(win, iterable.t, ctx), z3.Function('args_error', World, Node, Node, z3.StringSort())(win, iterable.t, ctx))
    content = Base(ip, ARGS_VAL(win, iterable.t, ctx), SCRIPT_KINDS)
    ip.assume(content.n == iterable.n)
    return content
