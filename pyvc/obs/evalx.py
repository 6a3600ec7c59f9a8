"""Obligations of evaluate_expression (src/bare_script/runtime.py): one per kind of expression"""

import z3

from bare_script import library as library_mod
from bare_script import runtime as mod
from bare_script import value as value_mod
from pyvc import world as w
from pyvc.dsl import Outcome, inline, obligation, outcome, prove_same, value
from pyvc.models import MICROS_MAX
from pyvc.engine import str_term, PathEnd, PyExc, Lit, Model, Opaque, SDict, SList, SV
from pyvc.obs.values import CMP
from pyvc.terms import SCRIPT_KINDS, V, DContent, Node, World, func
from specs import eval_spec, value_spec

BINARY_OPS = ('**', '*', '/', '%', '+', '-', '<=', '<', '>=', '>', '==', '!=')


#
# Setup
#


class Table:
    """The built-in expression functions, as an unknown table (its entries are checked one by one in C03 expression_functions)"""

    def contains(self, ip, item):
        return ip.branch(func('is_builtin', ['val'], 'bool')(ip.to_v(item)))

    def getitem(self, ip, key):
        if not self.contains(ip, key):
            ip.raise_(KeyError, key)
        return self.entry(ip, key)

    def entry(self, ip, key):
        t = func('builtin_of', ['val'], 'int')(ip.to_v(key))
        return SV('val', V.fn(t))


def setup(ip, with_options=True, with_locals=True, fork_globals=True):
    """A world, options, locals and the contracts of the callees"""
    from pyvc.models import call_method as _  # pylint: disable=import-outside-toplevel,unused-import
    ip.world = z3.Const('W0', World)
    options = w.Options(ip) if with_options else None
    if with_options and fork_globals and ip.pick(['globals', 'no globals']) == 'no globals':
        options.has_globals = False
    locals_ = SDict(ip, z3.Const('L0', DContent), (), z3.Int('locals_ref'), SCRIPT_KINDS, 'locals') if with_locals else None
    builtins = ip.input('bool', 'builtins')
    contracts(ip)
    ip.eval_context = (options, locals_, builtins)
    return options, locals_, builtins


def contracts(ip):
    ip.contracts[mod.evaluate_expression] = w.evaluate_contract
    ip.contracts[value_mod.value_string] = string_contract
    ip.contracts[eval_spec.spec_string] = string_contract
    ip.contracts[value_mod.value_compare] = cmp_contract
    ip.contracts[value_spec.spec_compare] = cmp_contract
    ip.call_value = w.call_value
    ip.loop_contracts['evaluate_expression:comp'] = w.arguments_contract
    ip.opaque_dicts[id(library_mod.EXPRESSION_FUNCTIONS)] = TABLE


def string_contract(ip, args, kwargs):
    """value_string: a text that depends on the value and the world, or an exception (a value JSON cannot hold)"""
    t = ip.to_v(args[0])
    if ip.kinds_of(SV('val', t)) == frozenset(['str']):
        return SV('str', V.s(t))
    kind = z3.Function('string_fails', World, V, z3.BoolSort())(ip.world, t)
    if ip.branch(kind):
        ip.raise_(ValueError, 'not serialisable')
    return SV('str', z3.Function('string_of', World, V, z3.StringSort())(ip.world, t))


def cmp_contract(ip, args, kwargs):
    """value_compare: the order of two values in the world (value_compare.order)"""
    if func('cmp_fails', ['val', 'val'], 'bool') is None:
        return None
    t = CMP(ip.to_v(args[0]), ip.to_v(args[1]))
    ip.assume(z3.And(t >= -1, t <= 1))
    return SV('int', t)


def number_twins(ip):
    """The contracts of value_string and value_compare for C12: both see the number, not its spelling (value_string.number, value_compare.order)"""

    def float_of(ip2, x):
        if isinstance(x, SV) and x.k == 'int' and (x.t.eq(ip2.inputs['n'].t) or ip2.branch(z3.And(x.t > -10 ** 15, x.t < 10 ** 15))):
            return SV('real', z3.ToReal(x.t))
        return x

    for fn, contract in ((value_mod.value_string, string_contract), (eval_spec.spec_string, string_contract), (value_mod.value_compare, cmp_contract),
                         (value_spec.spec_compare, cmp_contract)):
        ip.contracts[fn] = lambda ip2, args, kwargs, contract=contract: contract(ip2, [float_of(ip2, x) for x in args], kwargs)


class _TableObj(Table):
    pass


def _make_table():
    from pyvc.engine import EObj

    class TableObj(EObj, Table):
        contains = Table.contains
        getitem = Table.getitem

        def getattr(self, ip, name):
            if name == 'get':
                return Model(lambda ip2, args, kwargs: self.entry(ip2, args[0]) if self.contains(ip2, args[0]) else (args[1] if len(args) > 1 else None))
            from pyvc.engine import Unsupported
            raise Unsupported(f'EXPRESSION_FUNCTIONS.{name}')
    return TableObj()


TABLE = _make_table()


def node(ip, name):
    return Opaque('expr', z3.Const(name, Node))


def run_both(ip, expr, spec, options, locals_, builtins, code=None, numeric=False):
    """The code and the specification from the same state: same outcome, same world (so the same evaluations in the same order)"""
    world, count = ip.world, options.count if options is not None else None
    got = inline(ip, mod.evaluate_expression, expr, options, locals_, builtins) if code is None else code()
    got_world, got_count = ip.world, options.count if options is not None else None
    if locals_ is not None:
        ip.prove(not locals_.writes, 'evaluation writes no local')
    ip.world = world
    if options is not None:
        options.count = count
    depth = ip.depth
    from pyvc.engine import PyExc
    try:
        want = Outcome(spec(ip))
    except PyExc as exc:
        ip.depth = depth
        want = Outcome(None, exc.obj)
    if want.exc is not None and want.exc.cls is eval_spec.NonFinite:
        return
    ends = {True: 'value', False: 'exception'}
    ip.prove(got.ok == want.ok, f'ends with {ends[want.ok]} ({want.exc.cls.__name__ if want.exc else ""}), not {ends[got.ok]} '
             f'({got.exc.cls.__name__ if got.exc else ""})')
    ip.prove(got_world == ip.world, 'the same evaluations, calls, writes and log entries, in the same order')
    if options is not None:
        same_count = got_count is options.count or (isinstance(got_count, SV) and isinstance(options.count, SV) and got_count.t == options.count.t)
        ip.prove(same_count, 'the statement counter')
    if got.ok and want.ok:
        prove_same(ip, got.value, want.value, 'result', numeric)
    elif not got.ok and not want.ok:
        prove_same(ip, got.exc, want.exc, 'exception')
        if 'tag' in want.exc.attrs:
            text = exc_text(got.exc)
            ip.prove(text is not None and text == want.exc.attrs['tag'], 'the exception of the callee itself, or the documented message')
        ip.prove(got.exc.cls in (w.RUNTIME_ERROR, w.INCLUDE_ERROR), 'only control exceptions leave an evaluation')


def exc_text(exc):
    """The message of an exception, as a term"""
    if 'tag' in exc.attrs:
        return exc.attrs['tag']
    if exc.attrs.get('wrapped'):
        return str_term(exc.attrs['text'])
    return str_term(exc.args[0]) if len(exc.args) == 1 else None


#
# Literals, variables, groups, unary
#


@obligation('evaluate.literal', ['C03', 'C05'], ['runtime.evaluate_expression'])
def _(ip):
    options, locals_, builtins = setup(ip, ip.pick([True, False]), ip.pick([True, False]))
    kind = ip.pick(['number', 'string', 'group'])
    if kind == 'number':
        number = value(ip, 'number', frozenset(['int', 'flt']))
        run_both(ip, SDict(ip, None, [('number', number)]), lambda ip2: number, options, locals_, builtins)
    elif kind == 'string':
        text = value(ip, 'string', frozenset(['str']))
        run_both(ip, SDict(ip, None, [('string', text)]), lambda ip2: text, options, locals_, builtins)
    else:
        sub = node(ip, 'sub')
        run_both(ip, SDict(ip, None, [('group', sub)]), lambda ip2: ev(ip2, sub), options, locals_, builtins)


def ev(ip, sub):
    options, locals_, builtins = ip.eval_context
    return w.evaluate_contract(ip, [sub, options, locals_, builtins], {})


@obligation('evaluate.variable', ['C03', 'C04', 'C05'], ['runtime.evaluate_expression'])
def _(ip):
    """Keywords, then locals, then globals, else null; nothing is evaluated or written"""
    options, locals_, builtins = setup(ip, ip.pick([True, False]), ip.pick([True, False]))
    name = ip.input('str', 'name')

    def spec(ip2):
        if ip2.branch(name.t == z3.StringVal('null')):
            return None
        if ip2.branch(name.t == z3.StringVal('true')):
            return True
        if ip2.branch(name.t == z3.StringVal('false')):
            return False
        return lookup(ip2, name, None)

    run_both(ip, SDict(ip, None, [('variable', name)]), spec, options, locals_, builtins)


def lookup(ip, name, default):
    """The value of a name: the local, else the global, else the default"""
    options, locals_, _ = ip.eval_context
    if locals_ is not None:
        found, result = locals_.lookup(ip, name)
        if found:
            return result
    if options is not None and options.has_globals:
        found, result = options.globals.lookup(ip, name)
        if found:
            return result
    return default


@obligation('evaluate.unary', ['C03', 'C05', 'C12'], ['runtime.evaluate_expression', 'runtime._is_number', 'value.value_boolean'])
def _(ip):
    options, locals_, builtins = setup(ip)
    op = ip.pick(['!', '-'])
    sub = node(ip, 'sub')

    def spec(ip2):
        v = ev(ip2, sub)
        if op == '!':
            return ip2.call(spec_not, [v])
        return ip2.call(spec_minus, [v])

    run_both(ip, SDict(ip, None, [('unary', SDict(ip, None, [('op', op), ('expr', sub)]))]), spec, options, locals_, builtins)


def spec_not(v):
    return not value_spec.spec_boolean(v)


def spec_minus(v):
    return -v if value_spec.spec_is_number(v) else None


#
# Binary operators
#


def binary_expr(ip, op):
    left, right = node(ip, 'left'), node(ip, 'right')
    return left, right, SDict(ip, None, [('binary', SDict(ip, None, [('op', op), ('left', left), ('right', right)]))])


@obligation('evaluate.short_circuit', ['C01', 'C03', 'C05'], ['runtime.evaluate_expression', 'value.value_boolean'])
def _(ip):
    """&& and || return an operand; the right operand is evaluated only if the left does not decide"""
    options, locals_, builtins = setup(ip, ip.pick([True, False]))
    op = ip.pick(['&&', '||'])
    left, right, expr = binary_expr(ip, op)

    def spec(ip2):
        v = ev(ip2, left)
        truthy = ip2.truth(ip2.call(value_spec.spec_boolean, [v]))
        return ev(ip2, right) if truthy == (op == '&&') else v

    run_both(ip, expr, spec, options, locals_, builtins)


def operator_obligation(op):
    def check(ip):
        options, locals_, builtins = setup(ip, fork_globals=False)
        left, right, expr = binary_expr(ip, op)
        def spec(ip2):
            a = ev(ip2, left)
            b = ev(ip2, right)
            dates = frozenset(['dtn', 'dta', 'date'])
            if op == '-' and ip2.has_kind(a, dates) and ip2.has_kind(b, dates):
                # Datetimes of script precision: whole milliseconds (others are rounded, C16's bounded harness)
                try:
                    da, db = (V.n(ip2.to_v(ip2.call(value_spec.spec_local, [x]))) for x in (a, b))
                except PyExc as exc:
                    # No local time (assumed away)
                    raise PathEnd() from exc
                millis = ip2.fresh('int', 'millis').t
                ip2.assume(z3.And(da >= 0, da <= MICROS_MAX, db >= 0, db <= MICROS_MAX, da - db == 1000 * millis))
            return ip2.call(spec_operator_null, [op, a, b])

        run_both(ip, expr, spec, options, locals_, builtins, numeric=op == '-')
    return check


def spec_operator_null(op, l, r):
    """The operators; a value that cannot be stringified gives null"""
    try:
        return eval_spec.spec_operator(op, l, r)
    except ValueError:
        return None


for _op in BINARY_OPS:
    obligation(f'evaluate.operator {_op}', ['C03', 'C05', 'C11'] if _op in ('<', '<=', '>', '>=', '==', '!=') else ['C03', 'C05'] + (['C16'] if _op in '+-' else []),
               ['runtime.evaluate_expression', 'runtime._evaluate_binary_operator', 'runtime._is_number'], limit_s=120)(operator_obligation(_op))


#
# Calls
#


@obligation('evaluate.if', ['C01', 'C03', 'C05'], ['runtime.evaluate_expression', 'value.value_boolean'])
def _(ip):
    """if(): the condition, then only the selected branch"""
    options, locals_, builtins = setup(ip)
    count = ip.pick([None, 0, 1, 2, 3])
    fields = [('name', 'if')]
    subs = [node(ip, f'arg{ix}') for ix in range(count or 0)]
    if count is not None:
        fields.append(('args', SList(ip, Lit(subs))))

    def spec(ip2):
        truthy = ip2.truth(ip2.call(value_spec.spec_boolean, [ev(ip2, subs[0])])) if subs else False
        chosen = subs[1:2] if truthy else subs[2:3]
        return ev(ip2, chosen[0]) if chosen else None

    run_both(ip, SDict(ip, None, [('function', SDict(ip, None, fields))]), spec, options, locals_, builtins)


def call_obligation(with_args, with_options, with_locals):
    def check(ip):
        options, locals_, builtins = setup(ip, with_options, with_locals)
        name = ip.input('str', 'name')
        ip.assume(name.t != z3.StringVal('if'))
        args = w.NodeList(z3.Const('args', Node))
        fields = [('name', name)] + ([('args', args)] if with_args else [])

        def spec(ip2):
            # The arguments, once, left to right
            if with_args:
                ctx = w.context(ip2, options, locals_, builtins)
                win = w.enter(ip2, options)
                w.leave(ip2, options, w.ARGS_WORLD(win, args.t, ctx))
                w.control(ip2, w.ARGS_KIND(win, args.t, ctx), z3.Function('args_error', World, Node, Node, z3.StringSort())(win, args.t, ctx))
                values = SList(ip2, w.Base(ip2, w.ARGS_VAL(win, args.t, ctx), SCRIPT_KINDS))
            else:
                values = SList(ip2, Lit([]))
            # The function: local, global, and in expression mode the built-ins
            fn = lookup(ip2, name, MISSING)
            if fn is MISSING:
                fn = TABLE.entry(ip2, name) if ip2.truth(builtins) and TABLE.contains(ip2, name) else None
            if fn is None or ip2.has_kind(fn, frozenset(['none'])):
                w.raise_exc(ip2, w.RUNTIME_ERROR, z3.Concat(z3.StringVal('Undefined function "'), name.t, z3.StringVal('"')))
            return spec_call(ip2, fn, values, options, name)

        run_both(ip, SDict(ip, None, [('function', SDict(ip, None, fields))]), spec, options, locals_, builtins)
    return check


MISSING = object()


def spec_call(ip, fn, values, options, name):
    """A failing function is contained: logged in debug mode, the documented failure value or null"""
    from pyvc.engine import PyExc
    if not ip.has_kind(fn, frozenset(['fn'])):
        exc = None
        text = None
    else:
        try:
            return w.call_contract(ip, fn, [values, options], {})
        except PyExc as py_exc:
            exc = py_exc.obj
            if exc.cls in (w.RUNTIME_ERROR, w.INCLUDE_ERROR):
                raise
            text = exc.attrs['text']
    if options is not None:
        has_log, log_fn = options.lookup(ip, 'logFn')
        if has_log and ip.truth(options.get(ip, ['debug'], {})):
            if text is None:
                text = SV('str', z3.StringVal('object is not callable'))
            message = z3.Concat(z3.StringVal('BareScript: Function "'), name.t, z3.StringVal('" failed with error: '), text.t)
            ip.world = w.LOG(ip.world, V.str(message))
    if exc is not None and exc.cls is value_mod.ValueArgsError:
        return exc.attrs['return_value']
    return None


for _args in (True, False):
    for _options in (True, False):
        for _locals in (True, False):
            _label = f'{"args" if _args else "no args"}, {"options" if _options else "no options"}, {"locals" if _locals else "no locals"}'
            obligation(f'evaluate.call ({_label})', ['C03', 'C04', 'C05', 'C17'], ['runtime.evaluate_expression'], limit_s=120)(
                call_obligation(_args, _options, _locals))


@obligation('expression_functions.aliases', ['C03'], ['library.EXPRESSION_FUNCTIONS'])
def _(ip):
    """Every documented built-in is the library function it aliases - the same function object"""
    for alias, name in eval_spec.ALIASES.items():
        ip.prove(library_mod.EXPRESSION_FUNCTIONS.get(alias) is library_mod.SCRIPT_FUNCTIONS.get(name) and name in library_mod.SCRIPT_FUNCTIONS,
                 f'{alias} is {name}')
