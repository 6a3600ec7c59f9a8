"""Obligations of the statement executor (src/bare_script/runtime.py): one step of the statement loop against the reference step, function calls, includes"""

import z3

from bare_script import library as library_mod
from bare_script import model as model_mod
from bare_script import options as options_mod
from bare_script import parser as parser_mod
from bare_script import runtime as mod
from pyvc import interp, models
from pyvc import world as w
from pyvc.dsl import inline, obligation, prove_same
from pyvc.engine import Base, Closure, EObj, ExcObj, Lit, Model, Opaque, Partial, PathEnd, PyExc, SDict, SList, Space, SV, Unsupported, ival, CAT, DHAS, DGET
from pyvc.obs import evalx
from pyvc.terms import SCRIPT_KINDS, V, Content, DContent, Node, World, func
from specs import value_spec

HELPER = mod._execute_script_helper  # pylint: disable=protected-access
LABELAT = z3.Function('label_at', Node, z3.IntSort(), V)        # the label of a statement (none: not a label statement)
BIND = z3.Function('bound_params', Node, z3.IntSort(), Content, DContent)     # the locals after the first k parameters are bound
PARAM = z3.Function('param_name', Node, z3.IntSort(), z3.StringSort())
NPARAM = z3.Function('param_count', Node, z3.IntSort())
DEFAULT_LIMIT = 1000000000


class ModelDict(SDict):
    """A part of the script model: never written"""

    def setitem(self, ip, key, value):
        ip.prove(False, 'the model is modified')

    def delitem(self, ip, key):
        ip.prove(False, 'the model is modified')


class ModelList(SList):
    """A list of the script model: never written"""

    def setitem(self, ip, key, value):
        ip.prove(False, 'the model is modified')

    def delitem(self, ip, key):
        ip.prove(False, 'the model is modified')


class Stmt(EObj):
    """Some statement of the list: only its label matters"""

    py_class = dict

    def __init__(self, owner, k):
        self.owner = owner
        self.k = k

    def getattr(self, ip, name):
        if name == 'get':
            return Model(self.get)
        raise Unsupported(f'statement.{name}')

    def label(self, ip):
        t = LABELAT(self.owner, ival(self.k))
        sv = SV('val', t)
        if t.get_id() not in ip.kinds:
            ip.set_kinds(sv, frozenset(['none', 'str']))
        return sv

    def get(self, ip, args, kwargs):
        if args[0] != 'label':
            raise Unsupported('member of a generic statement')
        return self.label(ip)

    def contains(self, ip, item):
        if item != 'label':
            raise Unsupported('member of a generic statement')
        return not ip.has_kind(self.label(ip), frozenset(['none']))

    def getitem(self, ip, key):
        if not self.contains(ip, key):
            ip.raise_(KeyError, key)
        return self.label(ip)


class StmtList(EObj):
    """The statement list: the current statement is known, the others are arbitrary"""

    py_class = list

    def __init__(self, t):
        self.t = t
        self.n = z3.Function('statement_count', Node, z3.IntSort())(t)
        self.current = None

    def length(self, ip):
        ip.assume(self.n >= 0)
        return SV('int', self.n)

    def truth(self, ip):
        return ip.branch(self.n > 0)

    def at(self, ip, k):
        if self.current is not None and z3.simplify(ival(k)).eq(z3.simplify(ival(self.current[0]))):
            return self.current[1]
        return Stmt(self.t, k)

    def space(self, ip):
        ip.assume(self.n >= 0)
        return Space(self.n, self.at)

    def getitem(self, ip, key):
        if isinstance(key, slice):
            raise Unsupported('slice of the statement list')
        k = ip.int_of(key)
        if ip.branch(z3.And(ival(k) >= 0, ival(k) < self.n)):
            return self.at(ip, k)
        if ip.branch(z3.And(ival(k) < 0, ival(k) >= -self.n)):
            return self.at(ip, k + self.n)
        return ip.raise_(IndexError, 'list index out of range')

    def setitem(self, ip, key, value):
        ip.prove(False, 'the model is modified')

    def delitem(self, ip, key):
        ip.prove(False, 'the model is modified')

    def getattr(self, ip, name):
        if name in ('append', 'extend', 'insert', 'pop', 'clear', 'remove', 'sort', 'reverse'):
            ip.prove(False, 'the model is modified')
        raise Unsupported(f'statements.{name}')


class LabelCache(EObj):
    """A cache of label indexes: every entry is the index of the first statement with that label"""

    py_class = dict

    def __init__(self, ip, statements, empty=False):
        ip.fresh_count += 1
        self.base = None if empty else z3.Const(f'labels!{ip.fresh_count}', DContent)
        self.statements = statements
        self.writes = []

    def fact(self, kt, index):
        j = z3.Int('j')
        t = self.statements.t
        return z3.And(index >= 0, index < self.statements.n, LABELAT(t, index) == kt, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < index), LABELAT(t, j) != kt)))

    def lookup(self, ip, key):
        kt = ip.to_v(key)
        for wkey, wvalue in reversed(self.writes):
            if ip.branch(wkey == kt):
                return True, wvalue
        if self.base is None or not ip.branch(DHAS(self.base, kt)):
            return False, None
        index = V.i(DGET(self.base, kt))
        ip.assume(self.fact(kt, index))
        return True, SV('int', index)

    def contains(self, ip, item):
        return self.lookup(ip, item)[0]

    def getitem(self, ip, key):
        found, value = self.lookup(ip, key)
        if not found:
            ip.raise_(KeyError, key)
        return value

    def setitem(self, ip, key, value):
        kt = ip.to_v(key)
        ip.prove(self.fact(kt, ival(ip.int_of(value))), 'a cached label index is the first statement with that label')
        self.writes.append((kt, value))

    def getattr(self, ip, name):
        if name == 'get':
            return Model(self.get)
        raise Unsupported(f'label cache .{name}')

    def get(self, ip, args, kwargs):
        found, value = self.lookup(ip, args[0])
        return value if found else (args[1] if len(args) > 1 else None)

    def truth(self, ip):
        ip.fresh_count += 1
        return ip.branch(z3.Bool(f'cache_nonempty!{ip.fresh_count}')) if not self.writes else True


#
# The statement loop
#


def exec_contract(ip, args, kwargs):
    """_execute_script_helper(statements, options, locals_): the execution of a statement list"""
    statements, options, locals_ = args
    if not isinstance(statements, Opaque) or not isinstance(options, w.Options) or kwargs:
        raise Unsupported('execution of statements that are not opaque')
    ctx = w.context(ip, options, locals_, False)
    win = w.enter(ip, options)
    w.leave(ip, options, w.EXEC_WORLD(win, statements.t, ctx))
    text = z3.Function('exec_error', World, Node, Node, z3.StringSort())(win, statements.t, ctx)
    w.control(ip, w.EXEC_KIND(win, statements.t, ctx), text, [lambda ip2: w.raise_exc(ip2, w.OtherError, text)])
    sv = SV('val', w.EXEC_VAL(win, statements.t, ctx))
    if sv.t.get_id() not in ip.kinds:
        ip.set_kinds(sv, SCRIPT_KINDS)
    return sv


def roles(ip, frame, node):
    """The carried variables of the statement loop: the index (starts at 0) and the label cache (starts at None or empty)"""
    carried = [name for name in interp.stored_names(node) if name in frame.locals]
    index, cache = [], []
    for name in carried:
        value = frame.locals[name]
        if isinstance(value, int) and not isinstance(value, bool) and value == 0:
            index.append(name)
        elif value is None:
            cache.append(name)
        else:
            raise Unsupported(f'carried variable {name} of the statement loop')
    for name, value in frame.locals.items():
        if isinstance(value, SDict) and value.base is None and not value.writes and name not in carried:
            cache.append(name)
    if len(index) != 1 or len(cache) > 1:
        raise Unsupported('carried variables of the statement loop')
    return index[0], cache[0] if cache else None


def statement_loop(kind, build, step, cache_fork):
    """The loop contract: from any state of the loop, one iteration is the reference step of the statement at the index"""
    def contract(ip, frame, node, spc):
        import ast
        if not isinstance(node, ast.While):
            return NotImplemented
        statements, options, locals_ = ip.exec_state
        index, cache = roles(ip, frame, node)
        which = ip.pick(['step', 'exit'])
        # Any reachable state
        ix = ip.fresh('int', 'ix').t
        ip.assume(z3.And(ix >= 0, statements.n >= 0))
        ip.world = ip.fresh_world()
        options.count = ip.fresh('int', 'count')
        if locals_ is not None:
            ip.fresh_count += 1
            locals_.base, locals_.writes = z3.Const(f'locals!{ip.fresh_count}', DContent), []
        initial = dict(frame.locals)
        assigned = interp.stored_names(node)
        for name in assigned:
            frame.locals.pop(name, None)
            frame.forgotten.add(name)
        interp.set_name(ip, frame, index, SV('int', ix))
        if cache is not None:
            start = initial[cache]
            if start is None and (not cache_fork or ip.pick(['no cache', 'cache']) == 'no cache'):
                interp.set_name(ip, frame, cache, None)
            else:
                interp.set_name(ip, frame, cache, LabelCache(ip, statements))
        if which == 'exit':
            # The index moves up by one or to a statement: it never passes the end
            ip.assume(ix <= statements.n)
            if ip.truth(interp.ev(ip, frame, node.test)):
                ip.prove(ix < statements.n, 'the loop ends after the last statement')
                raise PathEnd()
            ip.prove(ix >= statements.n, 'the loop ends only after the last statement')
            return interp.block(ip, frame, node.orelse)
        ip.assume(ix < statements.n)
        statements.current = (ix, build(ip, ix))
        if not ip.truth(interp.ev(ip, frame, node.test)):
            ip.prove(False, 'the loop goes on while there are statements')
            raise PathEnd()
        world, count = ip.world, options.count
        base = locals_.base if locals_ is not None else None
        depth = ip.depth
        try:
            signal = interp.block(ip, frame, node.body)
            if signal is None or signal[0] == 'continue':
                got = ('next', frame.locals[index])
                after = frame.locals.get(cache) if cache is not None else None
                if after is not None and not isinstance(after, LabelCache):
                    check_new_cache(ip, statements, after)
            elif signal[0] == 'return':
                got = ('return', signal[1])
            else:
                got = ('break', None)
        except PyExc as exc:
            ip.depth = depth
            got = ('raise', exc.obj)
        got_world, got_count = ip.world, options.count
        got_writes = list(locals_.writes) if locals_ is not None else []
        notes = list(ip.notes)
        # The reference step from the same state
        ip.world, options.count = world, count
        if locals_ is not None:
            locals_.base, locals_.writes = base, []
        ip.notes = notes
        try:
            want = step(ip, ix)
        except PyExc as exc:
            ip.depth = depth
            want = ('raise', exc.obj)
        ip.prove(got[0] == want[0], f'the step ends with {want[0]}, not {got[0]} ({describe(got)}, {describe(want)})')
        ip.prove(got_world == ip.world, 'the same evaluations, calls, writes and log entries, in the same order')
        ip.prove(w_count(got_count) == w_count(options.count), 'the statement counter')
        if locals_ is not None:
            ip.prove(len(got_writes) == len(locals_.writes), 'the same local assignments')
            for (ka, va), (kb, vb) in zip(got_writes, locals_.writes):
                prove_same(ip, ka, kb, 'assigned local name')
                prove_same(ip, va, vb, 'assigned local value')
        if got[0] == 'next':
            ip.prove(ival(ip.int_of(got[1])) == ival(want[1]), 'the next statement')
            ip.prove(ival(want[1]) <= statements.n, 'the next statement is inside the list, or the end')
        elif got[0] == 'return':
            prove_same(ip, got[1], want[1], 'return value')
        elif got[0] == 'raise':
            ip.prove(got[1].cls is want[1].cls, f'raises {want[1].cls.__name__}, not {got[1].cls.__name__}')
            if 'tag' in want[1].attrs:
                text = evalx.exc_text(got[1])
                ip.prove(text is not None and text == want[1].attrs['tag'], 'the message of the exception')
            for name in ('error', 'line', 'column_number', 'line_number'):
                if name in want[1].attrs and name != 'error':
                    prove_same(ip, got[1].attrs.get(name), want[1].attrs[name], f'{name} of the parser error')
            if 'names' in want[1].attrs:
                text = evalx.exc_text(got[1])
                ip.prove(text is not None and z3.Contains(text, want[1].attrs['names']), 'the message names the resolved location')
        raise PathEnd()
    return contract


def check_new_cache(ip, statements, cache):
    """A cache that the iteration created"""
    if not isinstance(cache, SDict) or cache.base is not None:
        raise Unsupported('label cache')
    model = LabelCache(ip, statements, True)
    for key, value in cache.writes:
        model.setitem(ip, key, value)


def describe(result):
    return f'{result[1].cls.__name__} {[str(arg)[:80] for arg in result[1].args]}' if result[0] == 'raise' else ''


def w_count(count):
    return ival(count) if isinstance(count, int) else count.t


def run_statement(ip, kind, build, step, locals_fork=(True, False), call_value=None, cache_fork=True):
    ip.world = z3.Const('W0', World)
    options = w.Options(ip)
    locals_ = SDict(ip, z3.Const('L0', DContent), (), z3.Int('locals_ref'), SCRIPT_KINDS, 'locals') if ip.pick(list(locals_fork)) else None
    evalx.contracts(ip)
    ip.call_value = call_value or ip.call_value
    ip.contracts[mod.evaluate_expression] = w.evaluate_contract
    ip.contracts[HELPER] = exec_contract
    ip.loop_contracts.pop('evaluate_expression:comp', None)
    statements = StmtList(z3.Const('statements', Node))
    ip.exec_state = (statements, options, locals_)
    ip.eval_context = (options, locals_, False)
    ip.loop_contracts['_execute_script_helper'] = statement_loop(kind, build, lambda ip2, ix: counted(ip2, options, lambda: step(ip2, ix)), cache_fork)
    got = inline(ip, HELPER, statements, options, locals_)
    ip.prove(got.ok and got.value is None, 'a script that runs off its end returns null')


def counted(ip, options, step):
    """A statement starts: the counter goes up, the budget is checked first"""
    options.count = SV('int', z3.simplify(w_count(options.count) + 1))
    has_limit, limit = options.lookup(ip, 'maxStatements')
    limit = ip.unwrap(limit) if has_limit else DEFAULT_LIMIT
    if ip.truth(models.order(ip, __import__('ast').Gt, limit, 0)) and ip.truth(models.order(ip, __import__('ast').Gt, options.count, limit)):
        raise PyExc(ExcObj(w.RUNTIME_ERROR, []))
    return step()


def mdict(ip, fields):
    return ModelDict(ip, None, fields)


STEP_PROPS = ['C01', 'C04', 'C08', 'C09']


@obligation('execute.expr', STEP_PROPS, ['runtime._execute_script_helper'])
def _(ip):
    """An expression statement: evaluated once (without built-ins); an assignment writes the local (in a function) or the global"""
    expr = evalx.node(ip, 'expr')
    named = ip.pick(['assignment', 'expression'])
    name = ip.input('str', 'name')

    def step(ip2, ix):
        value = evalx.ev(ip2, expr)
        if named == 'assignment':
            statements, options, locals_ = ip2.exec_state
            if locals_ is not None:
                locals_.setitem(ip2, name, value)
            else:
                options.globals.setitem(ip2, name, value)
        return ('next', ix + 1)

    run_statement(ip, 'expr', lambda ip2, ix: mdict(ip2, [('expr', mdict(ip2, ([('name', name)] if named == 'assignment' else []) + [('expr', expr)]))]), step)


def spec_jump(label, expr):
    def step(ip, ix):
        statements = ip.exec_state[0]
        if expr is not None and not ip.truth(ip.call(value_spec.spec_boolean, [evalx.ev(ip, expr)])):
            return ('next', ix + 1)
        target = ip.first_match(statements.n, lambda sub, k: SV('bool', LABELAT(statements.t, k) == V.str(label.t)))
        if target is None:
            w.raise_exc(ip, w.RUNTIME_ERROR, z3.Concat(z3.StringVal('Unknown jump label "'), label.t, z3.StringVal('"')))
        return ('next', target + 1)
    return step


@obligation('execute.jump', STEP_PROPS + ['C07', 'C18'], ['runtime._execute_script_helper', 'value.value_boolean'], limit_s=120)
def _(ip):
    """A jump whose condition holds continues after the first label of that name in the same list, or raises; nothing else changes"""
    label = ip.input('str', 'label')
    expr = evalx.node(ip, 'condition') if ip.pick(['jumpif', 'jump']) == 'jumpif' else None
    fields = [('label', label)] + ([('expr', expr)] if expr is not None else [])
    run_statement(ip, 'jump', lambda ip2, ix: mdict(ip2, [('jump', mdict(ip2, fields))]), spec_jump(label, expr))


@obligation('execute.label', STEP_PROPS, ['runtime._execute_script_helper'])
def _(ip):
    """A label statement does nothing"""
    label = ip.input('str', 'label')

    def build(ip2, ix):
        ip2.assume(LABELAT(ip2.exec_state[0].t, ix) == V.str(label.t))
        return mdict(ip2, [('label', label)])

    run_statement(ip, 'label', build, lambda ip2, ix: ('next', ix + 1))


@obligation('execute.return', STEP_PROPS, ['runtime._execute_script_helper'])
def _(ip):
    """return ends the list with its value (or null)"""
    expr = evalx.node(ip, 'expr') if ip.pick(['value', 'null']) == 'value' else None
    run_statement(ip, 'return', lambda ip2, ix: mdict(ip2, [('return', mdict(ip2, [('expr', expr)] if expr is not None else []))]),
                  lambda ip2, ix: ('return', evalx.ev(ip2, expr) if expr is not None else None))


#
# Script functions
#


class FnModel(EObj):
    """A function statement's model"""

    py_class = dict

    def __init__(self, t, fields):
        self.t = t
        self.fields = fields

    def contains(self, ip, item):
        return item in self.fields

    def getitem(self, ip, key):
        if key not in self.fields:
            ip.raise_(KeyError, key)
        return self.fields[key]

    def getattr(self, ip, name):
        if name == 'get':
            return Model(lambda ip2, args, kwargs: self.fields.get(args[0], args[1] if len(args) > 1 else None))
        raise Unsupported(f'function model .{name}')

    def setitem(self, ip, key, value):
        ip.prove(False, 'the model is modified')

    def to_v(self, ip):
        return V.other(z3.Function('node_id', Node, z3.IntSort())(self.t))


class ParamList(EObj):
    """The parameter names of a function model"""

    py_class = list

    def __init__(self, t):
        self.t = t

    def length(self, ip):
        ip.assume(NPARAM(self.t) >= 0)
        return SV('int', NPARAM(self.t))

    def truth(self, ip):
        return ip.branch(NPARAM(self.t) > 0)

    def at(self, ip, k):
        return SV('str', PARAM(self.t, ival(k)))

    def space(self, ip):
        ip.assume(NPARAM(self.t) >= 0)
        return Space(NPARAM(self.t), self.at)

    def getitem(self, ip, key):
        k = ip.int_of(key)
        if ip.branch(z3.And(ival(k) >= 0, ival(k) < NPARAM(self.t))):
            return self.at(ip, k)
        if ip.branch(z3.And(ival(k) < 0, ival(k) >= -NPARAM(self.t))):
            return self.at(ip, k + NPARAM(self.t))
        return ip.raise_(IndexError, 'list index out of range')

    def setitem(self, ip, key, value):
        ip.prove(False, 'the model is modified')


def function_model(ip):
    t = z3.Const('function', Node)
    fields = {'name': ip.input('str', 'function_name'), 'statements': Opaque('statements', z3.Const('function_statements', Node))}
    params = ip.pick(['params', 'no params'])
    if params == 'params':
        fields['args'] = ParamList(t)
        if ip.pick(['plain', 'lastArgArray']) == 'lastArgArray':
            fields['lastArgArray'] = ip.input('bool', 'last_arg_array')
    if ip.pick(['sync', 'async']) == 'async':
        fields['async'] = True
    return FnModel(t, fields)


@obligation('execute.function', STEP_PROPS, ['runtime._execute_script_helper'], limit_s=120)
def _(ip):
    """A function statement binds the global name, and nothing else, to a function value"""
    fn = function_model(ip)

    def step(ip2, ix):
        statements, options, locals_ = ip2.exec_state
        bound = [note for note in ip2.notes if note[0] == 'setg']
        ip2.prove(len(bound) == 1, 'exactly one global is written')
        ip2.prove(isinstance(bound[0][2], (Partial, Closure, Model)), 'the global is a function value')
        options.globals.setitem(ip2, fn.fields['name'], bound[0][2])
        return ('next', ix + 1)

    run_statement(ip, 'function', lambda ip2, ix: mdict(ip2, [('function', fn)]), step)


@obligation('execute.function_call', ['C01', 'C04', 'C08', 'C09', 'C12', 'C17'], ['runtime._execute_script_helper', 'runtime._script_function'], limit_s=200)
def _(ip):
    """Calling the bound function: positional binding, missing null, surplus ignored, a trailing array parameter; the body runs with these locals, against the
    locations of the defining file, and the counter of the caller goes on"""
    fn = function_model(ip)
    args = SList(ip, Base(ip, z3.Const('call_args', Content), SCRIPT_KINDS), z3.Int('args_ref'), 'args')
    has_params = 'args' in fn.fields
    last = fn.fields.get('lastArgArray', False)

    def bind_loop(ip2, frame, node, spc):
        import ast
        if not isinstance(node, ast.For):
            return NotImplemented
        targets = [value for value in frame.locals.values() if isinstance(value, SDict) and value.base is None and not value.writes]
        if len(targets) != 1:
            raise Unsupported('the locals of a call')
        locals_ = targets[0]
        ip2.prove(ival(spc.n) == NPARAM(fn.t), 'every parameter is bound')
        if ip2.pick(['parameter', 'bound']) == 'parameter':
            k = ip2.fresh('int', 'k').t
            ip2.assume(z3.And(k >= 0, k < NPARAM(fn.t)))
            locals_.base = BIND(fn.t, k, args.content.term(ip2))
            for name in interp.stored_names(node):
                frame.locals.pop(name, None)
                frame.forgotten.add(name)
            interp.assign(ip2, frame, node.target, spc.at(ip2, k))
            signal = interp.block(ip2, frame, node.body)
            ip2.prove(signal is None or signal[0] == 'continue', 'every parameter is bound')
            ip2.prove(len(locals_.writes) == 1, 'one local per parameter')
            prove_same(ip2, locals_.writes[0][0], SV('str', PARAM(fn.t, k)), 'parameter name')
            n = args.content.n
            is_last = ip2.branch(k == NPARAM(fn.t) - 1) and ip2.truth(last)
            if is_last:
                want = SList(ip2, models.slice_of(ip2, args.content, k, n)) if ip2.branch(k <= n) else SList(ip2, Lit([]))
                value = ip2.unwrap(locals_.writes[0][1])
                ip2.prove(isinstance(value, SList) and value is not args, 'a trailing array parameter is a new array')
            elif ip2.branch(k < n):
                want = args.content.at(ip2, k)
            else:
                want = None
            prove_same(ip2, locals_.writes[0][1], want, 'parameter value')
            raise PathEnd()
        locals_.base = BIND(fn.t, NPARAM(fn.t), args.content.term(ip2))
        for name in interp.stored_names(node):
            frame.locals.pop(name, None)
            frame.forgotten.add(name)
        return interp.block(ip2, frame, node.orelse)

    def step(ip2, ix):
        # What the statement bound, called from another place
        bound = [note for note in ip2.notes if note[0] == 'setg']
        if len(bound) != 1:
            raise PathEnd()
        url_fn = ip2.exec_state[1].get(ip2, ['urlFn'], {})
        world = ip2.fresh_world()
        caller = w.Options(ip2, SV('int', z3.Int('caller_count')), {'urlFn': ip2.input('val', 'caller_urlFn', frozenset(['none', 'fn']))})
        ip2.loop_contracts['_script_function'] = bind_loop
        ip2.world = world
        depth = ip2.depth
        try:
            got, exc = ip2.call(bound[0][2], [args, caller]), None
        except PyExc as py_exc:
            ip2.depth = depth
            got, exc = None, py_exc.obj
        got_world, got_count = ip2.world, caller.count
        got_url = caller.get(ip2, ['urlFn'], {})
        # The reference call
        ip2.world = world
        inner = w.Options(ip2, SV('int', z3.Int('caller_count')), {'urlFn': url_fn})
        locals_ = SDict(ip2, BIND(fn.t, NPARAM(fn.t), args.content.term(ip2)) if has_params else None, (), None, SCRIPT_KINDS)
        try:
            want, want_exc = exec_contract(ip2, [fn.fields['statements'], inner, locals_], {}), None
        except PyExc as py_exc:
            ip2.depth = depth
            want, want_exc = None, py_exc.obj
        ip2.prove((exc is None) == (want_exc is None), 'the call ends as its body does')
        ip2.prove(got_world == ip2.world, 'the body runs once, with the bound locals')
        ip2.prove(w_count(got_count) == w_count(inner.count), "the statements of the body count in the caller's budget")
        if exc is None:
            prove_same(ip2, got, want, 'result of the call')
        else:
            ip2.prove(exc.cls is want_exc.cls, 'the exception of the body')
        ip2.prove(same_url(ip2, got_url), "the caller's options keep their locations")
        raise PathEnd()

    def same_url(ip2, got_url):
        return ip2.to_v(got_url) == z3.Const('caller_urlFn', V)

    run_statement(ip, 'function', lambda ip2, ix: mdict(ip2, [('function', fn)]), step, (False,))


#
# Includes
#

FETCH_KIND = z3.Function('fetch_kind', World, V, V, z3.IntSort())
FETCH_VAL = z3.Function('fetch_value', World, V, V, V)
FETCH_WORLD = z3.Function('fetch_world', World, V, V, World)
URL_OF = z3.Function('url_fn_result', V, z3.StringSort(), z3.StringSort())
RELATIVE = z3.Function('url_file_relative', z3.StringSort(), z3.StringSort(), z3.StringSort())
PARSE_OK = z3.Function('parse_ok', z3.StringSort(), z3.BoolSort())
PARSED = z3.Function('parsed_statements', z3.StringSort(), Node)
PARSE_ERROR = {'error': z3.Function('parse_error', z3.StringSort(), z3.StringSort()), 'line': z3.Function('parse_error_line', z3.StringSort(), z3.StringSort()),
               'column_number': z3.Function('parse_error_column', z3.StringSort(), z3.IntSort()),
               'line_number': z3.Function('parse_error_line_number', z3.StringSort(), z3.IntSort())}
LINT = z3.Function('lint_warnings', z3.StringSort(), Content)
LOGS = z3.Function('log_all', World, Content, World)
INC_KIND = z3.Function('includes_kind', World, Node, z3.IntSort())
INC_WORLD = z3.Function('includes_world', World, Node, World)


class IncludeList(ParamList):
    """The includes of an include statement"""

    def at(self, ip, k):
        t = z3.Function('include_at', Node, z3.IntSort(), Node)(self.t, ival(k))
        fields = {'url': SV('str', z3.Function('include_url', Node, z3.StringSort())(t))}
        if ip.branch(z3.Function('include_system', Node, z3.BoolSort())(t)):
            fields['system'] = SV('bool', z3.Function('include_system_value', Node, z3.BoolSort())(t))
        return FnModel(t, fields)


def relative_contract(ip, args, kwargs):
    """url_file_relative(file, url): its result is a function of its arguments (C17 url_file_relative)"""
    return SV('str', RELATIVE(*[evalx.str_term(ip.unwrap(arg)) for arg in w.bind_args(args, kwargs, ('file_', 'url'), {})]))


def parse_contract(ip, args, kwargs):
    """parse_script(text): a script, or a parser error with its four parts"""
    text = evalx.str_term(ip.unwrap(args[0]))
    if text is None:
        raise Unsupported('text of parse_script')
    if ip.branch(PARSE_OK(text)):
        return ParsedScript(text)
    attrs = {name: SV('int' if fn.range() == z3.IntSort() else 'str', fn(text)) for name, fn in PARSE_ERROR.items()}
    raise PyExc(ExcObj(parser_mod.BareScriptParserError, [], dict(attrs, text=SV('str', z3.Function('parse_error_text', z3.StringSort(), z3.StringSort())(text)))))


class ParsedScript(EObj):
    py_class = dict

    def __init__(self, text):
        self.text = text

    def getitem(self, ip, key):
        if key != 'statements':
            ip.raise_(KeyError, key)
        return Opaque('statements', PARSED(self.text))

    def setitem(self, ip, key, value):
        ip.prove(False, 'the parsed script is modified')


def lint_contract(ip, args, kwargs):
    """lint_script(script): a list of texts, and nothing else (C18 lint)"""
    if not isinstance(args[0], ParsedScript):
        raise Unsupported('lint of another script')
    return SList(ip, Base(ip, LINT(args[0].text), frozenset(['str'])))


def parser_error_class(ip, args, kwargs):
    """A parser error with its parts"""
    error, line, column, number, prefix = w.bind_args(args, kwargs, ('error', 'line', 'column_number', 'line_number', 'prefix'),
                                                      {'column_number': 1, 'line_number': None, 'prefix': None})
    return ExcObj(w.INCLUDE_ERROR, [], {'error': error, 'line': line, 'column_number': column, 'line_number': number, 'text': prefix, 'wrapped': True})


def include_call(ip, fn, args, kwargs):
    """Host callbacks: the logger, the fetcher, the URL function"""
    if kwargs:
        raise Unsupported('keyword arguments of a callback')
    if fn.t.eq(z3.Const('option_logFn', V)):
        ip.world = w.LOG(ip.world, V.none)
        return None
    if fn.t.eq(z3.Const('option_fetchFn', V)):
        request = ip.unwrap(args[0])
        fields = request.concrete() if isinstance(request, SDict) else None
        ip.prove(fields is not None and list(fields) == ['url'] and len(args) == 1, 'the fetch request has a URL only')
        ut = ip.to_v(fields['url'])
        world = ip.world
        ip.world = FETCH_WORLD(world, fn.t, ut)
        if ip.branch(FETCH_KIND(world, fn.t, ut) != 0):
            raise PyExc(ExcObj(w.OtherError, []))
        sv = SV('val', FETCH_VAL(world, fn.t, ut))
        if sv.t.get_id() not in ip.kinds:
            ip.set_kinds(sv, frozenset(['none', 'str']))
        return sv
    if fn.t.eq(z3.Const('option_urlFn', V)):
        return SV('str', URL_OF(fn.t, evalx.str_term(ip.unwrap(args[0]))))
    raise Unsupported('call of another host function')


def spec_include(ip, options, include):
    """The reference semantics of one include"""
    system_prefix = ip.unwrap(options.get(ip, ['systemPrefix'], {}))
    url_fn = options.get(ip, ['urlFn'], {})
    fetch_fn = options.get(ip, ['fetchFn'], {})
    log_fn = options.get(ip, ['logFn'], {})
    url = include.fields['url']
    if 'system' in include.fields and ip.truth(include.fields['system']) and system_prefix is not None:
        url = relative_contract(ip, [system_prefix, url], {})
    elif ip.unwrap(url_fn) is not None:
        url = include_call(ip, url_fn, [url], {})
    text = None
    if ip.unwrap(fetch_fn) is not None:
        try:
            text = include_call(ip, fetch_fn, [SDict(ip, None, [('url', url)])], {})
        except PyExc:
            text = None
    text = ip.unwrap(text)
    if text is None:
        raise PyExc(ExcObj(w.RUNTIME_ERROR, [], {'names': url.t}))
    try:
        script = parse_contract(ip, [text], {})
    except PyExc as exc:
        attrs = {name: exc.obj.attrs[name] for name in PARSE_ERROR}
        raise PyExc(ExcObj(w.INCLUDE_ERROR, [], dict(attrs, names=url.t))) from exc
    if ip.unwrap(log_fn) is not None and ip.truth(options.get(ip, ['debug'], {})):
        content = LINT(script.text)
        if ip.branch(CLEN_(content) > 0):
            ip.world = LOGS(w.LOG(ip.world, V.none), content)
    inner = w.Options(ip, options.count, {**options.overrides, 'urlFn': Model(lambda ip2, args, kwargs: relative_contract(ip2, [url] + args, kwargs))})
    try:
        exec_contract(ip, [Opaque('statements', PARSED(script.text)), inner, None], {})
    finally:
        options.count = inner.count


def CLEN_(content):
    from pyvc.engine import CLEN
    return CLEN(content)


def include_loops(ip, frame, node, spc):
    """The loops of the include statement: over the warnings of an include (each is logged), and over the includes (each is the reference include)"""
    import ast
    if not isinstance(node, ast.For) or isinstance(spc.n, int):
        return NotImplemented
    statements, options, locals_ = ip.exec_state
    includes = ip.includes
    if spc.n.eq(NPARAM(includes.t)):
        if ip.pick(['include', 'all includes']) == 'include':
            ip.world = ip.fresh_world()
            options.count = ip.fresh('int', 'count')
            k = ip.fresh('int', 'k').t
            ip.assume(z3.And(k >= 0, k < spc.n))
            for name in interp.stored_names(node):
                frame.locals.pop(name, None)
                frame.forgotten.add(name)
            world, count, url, depth = ip.world, options.count, options.url_term(ip), ip.depth
            include = includes.at(ip, k)
            try:
                interp.assign(ip, frame, node.target, spc.at(ip, k))
                signal = interp.block(ip, frame, node.body)
                got = None
                if signal is not None and signal[0] != 'continue':
                    ip.prove(False, 'every include of the statement runs')
            except PyExc as exc:
                ip.depth = depth
                got = exc.obj
            got_world, got_count = ip.world, options.count
            ip.prove(url == options.url_term(ip), 'the locations of the including script are kept')
            ip.world, options.count = world, count
            try:
                spec_include(ip, options, include)
                want = None
            except PyExc as exc:
                ip.depth = depth
                want = exc.obj
            ip.prove((got is None) == (want is None), f'an include ends {"normally" if want is None else "with " + want.cls.__name__}, not '
                     f'{"normally" if got is None else "with " + got.cls.__name__}')
            ip.prove(got_world == ip.world, 'an include fetches, logs and executes the same, in the same order')
            ip.prove(w_count(got_count) == w_count(options.count), 'the statements of an include count in the budget of the including script')
            if want is not None:
                ip.prove(got.cls is want.cls, f'an include raises {want.cls.__name__}, not {got.cls.__name__}')
                for name in PARSE_ERROR:
                    if name in want.attrs:
                        ip.prove(name in got.attrs, f'{name} of the parser error')
                        prove_same(ip, got.attrs[name], want.attrs[name], f'{name} of the parser error')
                if 'names' in want.attrs:
                    text = evalx.exc_text(got)
                    ip.prove(text is not None and z3.Contains(text, want.attrs['names']), 'the error names the resolved location')
            raise PathEnd()
        for name in interp.stored_names(node):
            frame.locals.pop(name, None)
            frame.forgotten.add(name)
        spec_includes(ip, options)
        return interp.block(ip, frame, node.orelse)
    if z3.is_app(spc.n) and spc.n.decl().name() == 'c_len' and spc.n.arg(0).decl().name() == 'lint_warnings':
        if ip.pick(['warning', 'all warnings']) == 'warning':
            world = ip.world = ip.fresh_world()
            k = ip.fresh('int', 'k').t
            ip.assume(z3.And(k >= 0, k < spc.n))
            count = options.count
            interp.assign(ip, frame, node.target, spc.at(ip, k))
            signal = interp.block(ip, frame, node.body)
            ip.prove((signal is None or signal[0] == 'continue') and options.count is count, 'a warning is logged')
            ip.prove(ip.world == w.LOG(world, V.none), 'a warning is logged once')
            raise PathEnd()
        for name in interp.stored_names(node):
            frame.locals.pop(name, None)
            frame.forgotten.add(name)
        ip.world = LOGS(ip.world, spc.n.arg(0))
        return interp.block(ip, frame, node.orelse)
    return NotImplemented


def spec_includes(ip, options):
    """All includes of the statement, in order: the fold of the reference include"""
    win = w.enter(ip, options)
    includes = ip.includes.t
    w.leave(ip, options, INC_WORLD(win, includes))
    text = z3.Function('includes_error', World, Node, z3.StringSort())(win, includes)
    w.control(ip, INC_KIND(win, includes), text, [lambda ip2: w.raise_exc(ip2, w.OtherError, text)])


def obligation_include(where):
    @obligation(f'execute.include.{where}', ['C01', 'C04', 'C05', 'C09', 'C17'], ['runtime._execute_script_helper'], limit_s=200)
    def _(ip):
        """An include statement: each include, in order, is resolved, fetched, parsed and executed at global scope with its own location, in the same budget"""
        includes = ip.includes = IncludeList(z3.Const('includes', Node))
        ip.contracts[options_mod.url_file_relative] = relative_contract
        ip.contracts[parser_mod.parse_script] = parse_contract
        ip.contracts[model_mod.lint_script] = lint_contract
        ip.contracts[w.INCLUDE_ERROR] = parser_error_class
        ip.loop_contracts['*'] = include_loops

        def step(ip2, ix):
            spec_includes(ip2, ip2.exec_state[1])
            return ('next', ix + 1)

        run_statement(ip, 'include', lambda ip2, ix: mdict(ip2, [('include', mdict(ip2, [('includes', includes)]))]), step, (where == 'function',), include_call,
                      False)


obligation_include('function')
obligation_include('script')


#
# execute_script
#


class ScriptOptions(w.Options):
    """The options of execute_script: the globals may be missing"""

    def __init__(self, ip, kind):
        super().__init__(ip)
        self.kind = kind
        self.given = Globals(ip)
        self.globals = self.given if kind == 'globals' else None
        self.has_globals = kind != 'no globals'
        self.count = None

    def lookup(self, ip, key):
        if key == 'statementCount':
            return self.count is not None, self.count
        return super().lookup(ip, key)

    def setitem(self, ip, key, value):
        if key == 'globals':
            self.has_globals, self.globals = True, value
        else:
            super().setitem(ip, key, value)


class Globals(EObj):
    """The globals at one arbitrary name: its content is a value or missing"""

    py_class = dict

    def __init__(self, ip):
        self.content = z3.Const('globals0', DContent)
        self.ref = z3.Int('globals_ref')

    def truth(self, ip):
        return ip.branch(z3.Bool('globals_nonempty'))

    def contains(self, ip, item):
        return ip.branch(DHAS(self.content, ip.to_v(item)))

    def setitem(self, ip, key, value):
        self.content = z3.Function('d_set', DContent, V, V, DContent)(self.content, ip.to_v(key), ip.to_v(value))

    def getattr(self, ip, name):
        if name == 'update':
            return Model(self.update)
        if name == 'setdefault':
            return Model(self.setdefault)
        raise Unsupported(f'globals.{name}')

    def setdefault(self, ip, args, kwargs):
        if not self.contains(ip, args[0]):
            self.setitem(ip, args[0], args[1])

    def update(self, ip, args, kwargs):
        source = args[0]
        pairs = getattr(source, 'source', None)
        if pairs is None or len(args) != 1 or kwargs:
            raise Unsupported('update of the globals')
        frame, node, iterable = pairs
        items = models.concrete_items(ip, iterable) if isinstance(iterable, EObj) else list(iterable)

        def body(ip2, item):
            inner = interp.comp_frame(frame, node)
            for key, value in interp.comp_elements(ip2, inner, node.generators, lambda frm: interp.ev(ip2, frm, node.elt), [item]):
                self.setitem(ip2, key, value)

        merge(ip, self, items, body)


def merge(ip, globals_, items, body):
    """The loop over the library: it names every function once, and each iteration binds its name if it is free"""
    table = library_mod.SCRIPT_FUNCTIONS
    names = [item if isinstance(item, str) else item[0] for item in items]
    ip.prove(sorted(names) == sorted(table), 'every library function is considered, once')
    k = ip.pick(list(range(len(items))) + ['after'])
    if k == 'after':
        globals_.content = z3.Function('merged', DContent, DContent)(globals_.content)
        return
    ip.fresh_count += 1
    start = globals_.content = z3.Const(f'globals!{ip.fresh_count}', DContent)
    name = names[k]
    body(ip, items[k])
    if ip.branch(DHAS(start, V.str(z3.StringVal(name)))):
        ip.prove(globals_.content == start, f'a global of the host is kept ({name})')
    else:
        want = z3.Function('d_set', DContent, V, V, DContent)(start, V.str(z3.StringVal(name)), ip.to_v(table[name]))
        ip.prove(globals_.content == want, f'a missing library function is bound to its own name ({name})')
    raise PathEnd()


def merge_loop(ip, frame, node, spc):
    """The same merge, written as a loop"""
    import ast
    globals_ = [obj for obj in ip.script_globals() if isinstance(obj, Globals)]
    if not isinstance(node, ast.For) or not globals_ or spc.n < 50:
        return NotImplemented
    items = [spc.at(ip, k) for k in range(spc.n)]

    def body(ip2, item):
        interp.assign(ip2, frame, node.target, item)
        signal = interp.block(ip2, frame, node.body)
        ip2.prove(signal is None or signal[0] == 'continue', 'every library function is considered')

    merge(ip, globals_[0], items, body)
    for name in interp.stored_names(node):
        frame.locals.pop(name, None)
        frame.forgotten.add(name)
    return interp.block(ip, frame, node.orelse)


@obligation('execute.script', ['C01', 'C04', 'C08', 'C09'], ['runtime.execute_script'], limit_s=120)
def _(ip):
    """execute_script: a fresh budget; the host's globals object is used, and library functions only fill free names"""
    kind = ip.pick(['globals', 'no globals', 'null globals', 'no options'])
    options = ScriptOptions(ip, kind) if kind != 'no options' else None
    statements = Opaque('statements', z3.Const('script_statements', Node))
    script = FnModel(z3.Const('script', Node), {'statements': statements})
    calls = []
    ip.host_loops = True
    ip.script_globals = lambda: [options.globals] if options is not None else []
    ip.loop_contracts['*'] = merge_loop
    table = library_mod.SCRIPT_FUNCTIONS

    def helper(ip2, args, kwargs):
        calls.append(args)
        got_statements, got_options, locals_ = args
        ip2.prove(got_statements is statements and locals_ is None, 'the statements of the script run at global scope')
        count = ip2.unwrap(got_options.getitem(ip2, 'statementCount'))
        ip2.prove(isinstance(count, int) and count == 0, 'the budget starts fresh')
        globals_ = got_options.getitem(ip2, 'globals')
        if kind == 'globals':
            ip2.prove(globals_ is options.given, "the host's globals object is used")
            ip2.prove(globals_.content.eq(z3.Function('merged', DContent, DContent)(z3.Const('globals0', DContent))), 'the library fills the free names, once')
        else:
            items = globals_.concrete() if isinstance(globals_, SDict) else None
            ip2.prove(items is not None and set(items) == set(table) and all(items[name] is table[name] for name in table), 'the globals are the library functions')
        if options is not None:
            ip2.prove(got_options is options, "the host's options object is used")
        return SV('val', z3.Const('script_result', V))

    ip.contracts[HELPER] = helper
    got = inline(ip, mod.execute_script, script, options)
    ip.prove(got.ok and len(calls) == 1, 'the script is executed once')
    prove_same(ip, got.value, SV('val', z3.Const('script_result', V)), 'the result of the script')
