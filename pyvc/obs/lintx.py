"""Obligations of the linter (src/bare_script/model.py, C18): its sets of names are the names defined and used, and a warning is given only when it is justified"""

import z3

from bare_script import model as mod
from bare_script import runtime as runtime_mod
from pyvc import interp
from pyvc import world as w
from pyvc.dsl import inline, obligation, prove_same
from pyvc.engine import SV, Base, Cat, EObj, Lit, Model, Opaque, PathEnd, PyExc, SDict, SList, Space, Unsupported, DHAS, content_cat, ival, str_term
from pyvc.models import SymSet
from pyvc.obs import evalx
from pyvc.obs.execx import ModelDict
from pyvc.terms import SCRIPT_KINDS, V, DContent, Node, World
from specs import value_spec

STR = frozenset(['str'])
INT = frozenset(['int'])
OCCURS = z3.Function('occurs', Node, V, z3.BoolSort())                              # a name occurs in an expression (as a variable or a function)
OCCURS_ARGS = z3.Function('occurs_in_first', Node, z3.IntSort(), V, z3.BoolSort())    # a name occurs in the first k expressions of a list
POINTLESS = z3.Function('no_call', Node, z3.BoolSort())                             # an expression without a function call
ROLES = ('assigned', 'used', 'label_defined', 'label_used', 'function_defined')
HOLDS = {role: z3.Function(f'{role}_before', Node, z3.IntSort(), V, z3.BoolSort()) for role in ROLES}     # ... by the first k statements of a list


def member(ip, keys, x):
    """A condition: a name is a key"""
    if isinstance(keys, NameSet):
        return z3.Or(keys.fact(x), *[ip.to_v(name) == x for name in keys.added])
    if isinstance(keys, SymSet):
        return z3.Or(z3.BoolVal(False), *[ip.to_v(name) == x for name in keys.items])
    if not isinstance(keys, SDict) or keys.base is not None and keys.fact is None:
        raise Unsupported('a set of names')
    from pyvc.engine import _TOMB
    result = keys.fact(x) if keys.base is not None else z3.BoolVal(False)
    for key, value in keys.writes:
        result = z3.And(result, ip.to_v(key) != x) if value is _TOMB else z3.Or(result, ip.to_v(key) == x)
    return result


def forget(ip, keys, fact, kinds=INT):
    """The dict holds some values under the names for which the fact holds"""
    ip.fresh_count += 1
    keys.base, keys.writes, keys.fact, keys.kinds = z3.Const(f'names!{ip.fresh_count}', DContent), [], fact, kinds
    return keys


def is_index(ip, value):
    return isinstance(value, int) or isinstance(value, SV) and (value.k == 'int' or value.k == 'val' and ip.has_kind(value, INT))


def check_values(ip, keys):
    for _, value in keys.writes:
        ip.prove(is_index(ip, value), 'the value of a name is an index')


class NameSet(EObj):
    """A set of names"""

    py_class = set

    def __init__(self, fact):
        self.fact = fact
        self.added = []

    def contains(self, ip, item):
        return ip.branch(member(ip, self, ip.to_v(item)))

    def getattr(self, ip, name):
        if name == 'add':
            return Model(lambda ip2, args, kwargs: self.added.append(args[0]))
        raise Unsupported(f'{name} of a set')


class Warnings(SList):
    """The list of warnings (only appended to)"""


#
# Expressions
#


def expr_node(ip, name):
    return Opaque('expr', z3.Const(name, Node))


class Arguments(w.NodeList):
    """The arguments of a call: not modified"""

    def setitem(self, ip, key, value):
        ip.prove(False, 'the model is modified')

    def getattr(self, ip, name):
        if name in ('append', 'extend', 'insert', 'pop', 'clear', 'remove', 'sort', 'reverse'):
            ip.prove(False, 'the model is modified')
        raise Unsupported(f'{name} of a list of expressions')


def some_expression(ip, kinds=('number', 'string', 'variable', 'group', 'unary', 'binary', 'function', 'function (no args)'), op=None):
    """An expression of any kind: (the expression, the condition that a name occurs in it, the condition that it calls nothing, its parts)"""
    kind = ip.pick(list(kinds))
    part = lambda fields: ModelDict(ip, None, fields)
    false, true = z3.BoolVal(False), z3.BoolVal(True)
    if kind in ('number', 'string'):
        value = ip.input('val', kind)
        ip.set_kinds(value, frozenset(['flt']) if kind == 'number' else STR)
        return part([(kind, value)]), lambda x: false, true
    if kind == 'variable':
        name = ip.input('str', 'name')
        return part([('variable', name)]), lambda x: x == V.str(name.t), true
    if kind == 'group':
        sub = expr_node(ip, 'sub')
        return part([('group', sub)]), lambda x: OCCURS(sub.t, x), POINTLESS(sub.t)
    if kind == 'unary':
        sub = expr_node(ip, 'sub')
        return part([('unary', part([('op', op or ip.pick(['!', '-'])), ('expr', sub)]))]), lambda x: OCCURS(sub.t, x), POINTLESS(sub.t)
    if kind == 'binary':
        left, right = expr_node(ip, 'left'), expr_node(ip, 'right')
        opv = op or ip.input('str', 'op')
        return (part([('binary', part([('op', opv), ('left', left), ('right', right)]))]), lambda x: z3.Or(OCCURS(left.t, x), OCCURS(right.t, x)),
                z3.And(POINTLESS(left.t), POINTLESS(right.t)))
    name = ip.input('str', 'name')
    if kind == 'function (no args)':
        return part([('function', part([('name', name)]))]), lambda x: x == V.str(name.t), false
    args = Arguments(z3.Const('args', Node))
    return part([('function', part([('name', name), ('args', args)]))]), lambda x: z3.Or(x == V.str(name.t), OCCURS_ARGS(args.t, args.n, x)), false


def pointless_contract(ip, args, kwargs):
    if len(args) != 1 or not isinstance(args[0], Opaque):
        raise Unsupported('pointless test of an expression that is not opaque')
    return SV('bool', POINTLESS(args[0].t))


@obligation('lint.pointless', ['C18'], ['model._is_pointless_expression'])
def _(ip):
    """An expression is pointless if no function call occurs in it (structural induction: sub-expressions by the same contract)"""
    expr, _, pointless = some_expression(ip)
    ip.contracts[mod._is_pointless_expression] = pointless_contract  # pylint: disable=protected-access
    got = inline(ip, mod._is_pointless_expression, expr)  # pylint: disable=protected-access
    ip.prove(got.ok, 'the linter does not fail')
    if got.ok:
        # A warning is justified; a call must not be reported
        ip.prove(z3.Implies(z3.BoolVal(True) if ip.truth(got.value) else z3.BoolVal(False), pointless), 'an expression reported pointless calls nothing')


def quiet_contract(ip, args, kwargs):
    """evaluate_expression of an expression without calls: a value, and nothing else happens"""
    expr, options, locals_, builtins = w.bind_args(args, kwargs, ('expr', 'options', 'locals_', 'builtins'), {'options': None, 'locals_': None, 'builtins': True})
    if not isinstance(expr, Opaque):
        return ip.call_closure(ip.closure_of(runtime_mod.evaluate_expression), args, kwargs)
    ip.prove(POINTLESS(expr.t), 'only sub-expressions without calls')
    sv = SV('val', w.EV_VAL(w.enter(ip, options), expr.t, w.context(ip, options, locals_, builtins)))
    if sv.t.get_id() not in ip.kinds:
        ip.set_kinds(sv, SCRIPT_KINDS)
    return sv


@obligation('lint.pointless_meaning', ['C18'], ['runtime.evaluate_expression'], limit_s=120)
def _(ip):
    """An expression without a call has no effect and does not fail, so a statement that is only such an expression can be deleted (structural induction)"""
    options, locals_, builtins = evalx.setup(ip, with_locals=ip.pick([True, False]))
    builtins = False
    kinds = ('number', 'string', 'variable', 'group', 'unary', 'binary')
    expr, _, pointless = some_expression(ip, kinds, None)
    if expr.concrete() and 'binary' in expr.concrete():
        op = ip.pick(list(evalx.BINARY_OPS) + ['&&', '||'])
        inner = expr.concrete()['binary'].concrete()
        expr = ModelDict(ip, None, [('binary', ModelDict(ip, None, [('op', op), ('left', inner['left']), ('right', inner['right'])]))])
    ip.assume(pointless)
    ip.contracts[runtime_mod.evaluate_expression] = quiet_contract
    world, count = ip.world, options.count
    got = inline(ip, runtime_mod.evaluate_expression, expr, options, locals_, builtins)
    ip.prove(got.ok, 'the evaluation does not fail')
    ip.prove(ip.world == world, 'nothing is called, written or logged')
    ip.prove(options.count is count, 'the statement counter')
    if locals_ is not None:
        ip.prove(not locals_.writes, 'no local is written')


@obligation('lint.unused_meaning', ['C18'], ['runtime.evaluate_expression'], limit_s=120)
def _(ip):
    """The evaluation of an expression does not depend on a local that does not occur in it, so an unused local can be renamed (structural induction)"""
    options, locals_, _ = evalx.setup(ip)
    x = ip.input('str', 'unused')
    # The renamed variable may shadow a global: a name that does not occur does neither
    other = SDict(ip, locals_.base, [(SV('str', x.t), ip.input('val', 'value'))], z3.Int('locals_ref'), SCRIPT_KINDS, 'locals')
    expr, occurs, _ = some_expression(ip, op=None)
    fields = expr.concrete()
    if 'binary' in fields:
        op = ip.pick(list(evalx.BINARY_OPS) + ['&&', '||'])
        inner = fields['binary'].concrete()
        expr = ModelDict(ip, None, [('binary', ModelDict(ip, None, [('op', op), ('left', inner['left']), ('right', inner['right'])]))])
    ip.assume(z3.Not(occurs(V.str(x.t))))
    if 'function' in fields:
        # Arguments are evaluated by the contract; the callee is looked up by a name that occurs
        ip.assume(fields['function'].concrete()['name'].t != x.t)
    ctx = lambda args: (args[1] if len(args) > 1 else None)

    def blind(ip2, args, kwargs):
        values = w.bind_args(args, kwargs, ('expr', 'options', 'locals_', 'builtins'), {'options': None, 'locals_': None, 'builtins': True})
        if isinstance(values[0], Opaque):
            ip2.prove(values[2] is locals_ or values[2] is other, 'evaluated with the locals')
            values[2] = locals_
            writes, locals_.writes = locals_.writes, []
            try:
                return w.evaluate_contract(ip2, values, {})
            finally:
                locals_.writes = writes
        return ip2.call_closure(ip2.closure_of(runtime_mod.evaluate_expression), args, kwargs)

    ip.contracts[runtime_mod.evaluate_expression] = blind
    del ctx
    world, count = ip.world, options.count
    results = []
    for scope in (locals_, other):
        ip.world, options.count = world, count
        ip.eval_context = (options, locals_, False)
        got = inline(ip, runtime_mod.evaluate_expression, expr, options, scope, False)
        results.append((got, ip.world, options.count))
    (first, world1, _), (second, world2, _) = results
    ip.prove(first.ok == second.ok, 'both fail or both do not')
    ip.prove(world1 == world2, 'the same evaluations and calls')
    if first.ok and second.ok:
        prove_same(ip, first.value, second.value, 'the same value')


def uses_contract(ip, args, kwargs):
    """_get_expression_variable_uses(expr, uses, ix): the names that occur in the expression are added"""
    if len(args) != 3 or kwargs or not isinstance(args[0], Opaque) or not isinstance(args[1], SDict):
        raise Unsupported('uses of an expression that is not opaque')
    ip.prove(is_index(ip, args[2]), 'the value of a name is an index')
    expr, uses = args[0].t, args[1]
    check_values(ip, uses)
    before = snapshot(ip, uses)
    forget(ip, uses, lambda x: z3.Or(before(x), OCCURS(expr, x)))
    return None


def snapshot(ip, keys):
    """The membership condition of a dict as it is now"""
    copy = SDict(ip, keys.base, keys.writes, None, keys.kinds, 'names')
    copy.fact = keys.fact
    return lambda x: member(ip, copy, x)


@obligation('lint.expression_uses', ['C18'], ['model._get_expression_variable_uses'])
def _(ip):
    """The names that occur in the expression, as variables or functions, are added to the uses; no other name is, and the model is unchanged"""
    expr, occurs, _ = some_expression(ip)
    helper = mod._get_expression_variable_uses  # pylint: disable=protected-access
    before = z3.Function('used_at_first', V, z3.BoolSort())
    uses = forget(ip, SDict(ip, None, [], None, INT), before)
    ip.contracts[helper] = uses_contract
    x = ip.input('str', 'x')
    xv = V.str(x.t)
    index = ip.input('int', 'ix_statement')

    def loop(ip2, frame, node, spc):
        probe = ip2.fresh('int', 'probe').t
        element = spc.at(ip2, probe)
        args = element.t.arg(0) if isinstance(element, Opaque) and element.t.num_args() == 2 else None
        if args is None or not args.eq(z3.Const('args', Node)):
            raise Unsupported('loop over something other than the arguments')
        check_values(ip2, uses)
        at_start = snapshot(ip2, uses)
        if ip2.pick(['iteration', 'exit']) == 'exit':
            forget(ip2, uses, lambda v: z3.Or(at_start(v), OCCURS_ARGS(args, ival(spc.n), v)))
            return None
        k = ip2.fresh('int', 'k').t
        ip2.assume(z3.And(k >= 0, k < ival(spc.n)))
        forget(ip2, uses, lambda v: z3.Or(at_start(v), OCCURS_ARGS(args, k, v)))
        element = spc.at(ip2, k)
        interp.assign(ip2, frame, node.target, element)
        signal = interp.block(ip2, frame, node.body)
        ip2.prove(signal is None or signal[0] == 'continue', 'the loop goes on')
        check_values(ip2, uses)
        ip2.prove(member(ip2, uses, xv) == z3.Or(at_start(xv), OCCURS_ARGS(args, k, xv), OCCURS(element.t, xv)), 'the names of an argument are added')
        raise PathEnd()

    ip.loop_contracts['_get_expression_variable_uses'] = loop
    got = inline(ip, helper, expr, uses, index)
    ip.prove(got.ok, 'the linter does not fail')
    check_values(ip, uses)
    ip.prove(member(ip, uses, xv) == z3.Or(before(xv), occurs(xv)), 'exactly the names that occur are added')


#
# Statements
#


class Scope:
    """A statement list: its k-th statement is any statement; the names that the first k statements define and use are the HOLDS functions"""

    def __init__(self, ip, name, kinds=('assignment', 'expression', 'jump', 'jumpif', 'return', 'return value', 'label', 'function', 'include')):
        self.name = name
        self.t = z3.Const(name, Node)
        self.n = z3.Function('statement_count', Node, z3.IntSort())(self.t)
        self.kinds = kinds
        self.seq = StatementSeq(self)
        self.conds = None
        self.inner = None
        self.current_kind = None
        ip.assume(self.n >= 0)

    def before(self, role, k):
        return lambda x: HOLDS[role](self.t, ival(k), x)

    def statement(self, ip):
        """A generic statement, with the names it adds per role"""
        kind = self.current_kind = ip.pick(list(self.kinds))
        part = lambda fields: ModelDict(ip, None, fields)
        conds = self.conds = {role: (lambda x: z3.BoolVal(False)) for role in ROLES}
        expr = expr_node(ip, f'{self.name}_expr')
        self.expr = expr
        uses = lambda x: OCCURS(expr.t, x)
        if kind in ('assignment', 'expression'):
            conds['used'] = uses
            fields = [('expr', expr)]
            if kind == 'assignment':
                name = ip.input('str', f'{self.name}_name')
                conds['assigned'] = lambda x: x == V.str(name.t)
                fields = [('name', name)] + fields
            return part([('expr', part(fields))])
        if kind in ('jump', 'jumpif'):
            label = ip.input('str', f'{self.name}_label')
            conds['label_used'] = lambda x: x == V.str(label.t)
            fields = [('label', label)]
            if kind == 'jumpif':
                conds['used'] = uses
                fields.append(('expr', expr))
            return part([('jump', part(fields))])
        if kind in ('return', 'return value'):
            if kind == 'return value':
                conds['used'] = uses
            return part([('return', part([('expr', expr)] if kind == 'return value' else []))])
        if kind == 'label':
            label = ip.input('str', f'{self.name}_label')
            conds['label_defined'] = lambda x: x == V.str(label.t)
            return part([('label', label)])
        if kind == 'function':
            name = ip.input('str', f'{self.name}_function')
            conds['function_defined'] = lambda x: x == V.str(name.t)
            self.inner = Scope(ip, f'{self.name}_body')
            fields = [('name', name), ('statements', self.inner.seq)]
            if ip.pick(['args', 'no args']) == 'args':
                self.args = Names(ip, Base(ip, ip.fresh('content', 'args').t, STR))
                fields.append(('args', self.args))
            else:
                self.args = None
            return part([('function', part(fields))])
        return part([('include', part([('includes', expr)]))])

    def after(self, role, k):
        """The names after the current statement, the k-th"""
        return lambda x: z3.Or(HOLDS[role](self.t, ival(k), x), self.conds[role](x))


class Names(SList):
    """The argument names of a function: not modified"""

    def contains(self, ip, item):
        return ip.branch(z3.Function('is_argument', V, z3.BoolSort())(ip.to_v(item)))

    def setitem(self, ip, key, value):
        ip.prove(False, 'the model is modified')


class StatementSeq(EObj):
    """The statements of a scope: not modified"""

    py_class = list

    def __init__(self, scope):
        self.scope = scope

    def length(self, ip):
        return SV('int', self.scope.n)

    def truth(self, ip):
        return ip.branch(self.scope.n > 0)

    def space(self, ip):
        return StatementSpace(self.scope)

    def setitem(self, ip, key, value):
        ip.prove(False, 'the model is modified')

    def delitem(self, ip, key):
        ip.prove(False, 'the model is modified')

    def getattr(self, ip, name):
        if name in ('append', 'extend', 'insert', 'pop', 'clear', 'remove', 'sort', 'reverse'):
            ip.prove(False, 'the model is modified')
        raise Unsupported(f'statements.{name}')


class StatementSpace(Space):
    def __init__(self, scope):
        self.scope = scope
        super().__init__(scope.n, self.element)

    def element(self, ip, k):
        ip.lint_probe = self.scope
        if not getattr(ip, 'lint_generic', False):
            return None
        return self.scope.statement(ip)


def scope_of(ip, spc):
    """The scope that a loop walks, or None"""
    ip.lint_probe, ip.lint_generic = None, False
    spc.at(ip, z3.IntVal(0))
    return ip.lint_probe


def generic(ip, spc, k):
    ip.lint_generic = True
    try:
        return spc.at(ip, k)
    finally:
        ip.lint_generic = False


@obligation('lint.statement_uses', ['C18'], ['model._get_variable_assignments_and_uses'])
def _(ip):
    """The names that the statements assign and use (not those inside nested functions), for any number of statements"""
    helper = mod._get_variable_assignments_and_uses  # pylint: disable=protected-access
    scope = Scope(ip, 'scope')
    assigns, uses = SDict(ip, None, [], None, INT), SDict(ip, None, [], None, INT)
    ip.contracts[mod._get_expression_variable_uses] = uses_contract  # pylint: disable=protected-access
    xv = V.str(ip.input('str', 'x').t)
    done = []

    def loop(ip2, frame, node, spc):
        if scope_of(ip2, spc) is not scope or done or assigns.writes or uses.writes:
            raise Unsupported('form of the loop')
        which = ip2.pick(['iteration', 'exit'])
        k = ip2.fresh('int', 'k').t if which == 'iteration' else scope.n
        forget(ip2, assigns, scope.before('assigned', k))
        forget(ip2, uses, scope.before('used', k))
        if which == 'exit':
            done.append(True)
            return None
        ip2.assume(z3.And(k >= 0, k < scope.n))
        interp.assign(ip2, frame, node.target, generic(ip2, spc, k))
        signal = interp.block(ip2, frame, node.body)
        ip2.prove(signal is None or signal[0] == 'continue', 'the loop goes on')
        for role, keys in (('assigned', assigns), ('used', uses)):
            check_values(ip2, keys)
            ip2.prove(member(ip2, keys, xv) == scope.after(role, k)(xv), f'names {role}')
        raise PathEnd()

    ip.loop_contracts['_get_variable_assignments_and_uses'] = loop
    got = inline(ip, helper, scope.seq, assigns, uses)
    ip.prove(got.ok, 'the linter does not fail')
    if not done:
        ip.prove(scope.n == 0, 'the statements are walked')


def statement_uses_contract(ip, args, kwargs):
    """_get_variable_assignments_and_uses(statements, assigns, uses), both empty at first"""
    if len(args) != 3 or kwargs or not isinstance(args[0], StatementSeq) or not all(isinstance(arg, SDict) and arg.base is None and not arg.writes for arg in args[1:]):
        raise Unsupported('arguments of the assignments and uses')
    scope = args[0].scope
    forget(ip, args[1], scope.before('assigned', scope.n))
    forget(ip, args[2], scope.before('used', scope.n))
    return None


#
# The linter
#

# The sets of names that the linter carries, by the names of its variables
GLOBAL_SETS = {'functions_defined': 'function_defined', 'labels_defined': 'label_defined', 'labels_used': 'label_used'}
FUNCTION_SETS = {'fn_labels_defined': 'label_defined', 'fn_labels_used': 'label_used'}
CLAIMS = ('Redefinition of function', 'Redefinition of global label', 'Redefinition of label', 'Duplicate argument', 'Unused variable', 'Unused argument', 'Unused label',
          'Unused global label', 'Unknown label', 'Unknown global label', 'Pointless statement', 'Pointless global statement')


class Lint:
    """A run of the linter; every warning of a path is checked against the condition that justifies it"""

    def __init__(self, ip, kinds):
        self.ip = ip
        self.top = Scope(ip, 'script', kinds)
        self.warnings = None
        self.given = []
        self.covered = set()
        ip.contracts[mod._is_pointless_expression] = pointless_contract  # pylint: disable=protected-access
        ip.contracts[mod._get_variable_assignments_and_uses] = statement_uses_contract  # pylint: disable=protected-access
        ip.contracts[mod._get_expression_variable_uses] = uses_contract  # pylint: disable=protected-access
        ip.loop_contracts['lint_script'] = self.loop

    def take(self):
        """The warnings since the last time (the list only grows)"""
        content = self.warnings.content
        items = []
        if isinstance(content, Lit):
            items = content.items
        elif isinstance(content, Cat) and isinstance(content.right, Lit) and isinstance(content.left, Base):
            items = content.right.items
        elif not isinstance(content, Base):
            raise Unsupported('form of the list of warnings')
        self.ip.fresh_count += 1
        self.warnings.content = Base(self.ip, self.ip.fresh('content', 'warnings').t, STR)
        return [self.parsed(item) for item in items]

    def parsed(self, item):
        """(the claim, the text)"""
        text = str_term(item)
        if text is None:
            self.ip.prove(False, 'a warning is a text')
            raise PathEnd()
        lead = text
        while z3.is_app_of(lead, z3.Z3_OP_SEQ_CONCAT):
            lead = lead.arg(0)
        lead = lead.as_string() if z3.is_string_value(lead) else ''
        claims = [claim for claim in CLAIMS if lead.startswith(claim)]
        return (max(claims, key=len) if claims else None), text

    def justify(self, given, allowed, where):
        """Every warning of a path that makes a claim is one of the allowed ones, names its name, and its condition holds"""
        for claim, text in given:
            if claim is None:
                continue
            self.ip.prove(claim in allowed, f'{claim}: reported {where}')
            if claim in allowed:
                name, condition = allowed[claim]
                if name is not None:
                    self.ip.prove(z3.Contains(text, z3.Concat(z3.StringVal('"'), name, z3.StringVal('"'))), f'{claim}: names it')
                self.ip.prove(condition, f'{claim}: justified')

    def exact(self, given, claim, condition):
        """The warning is given whenever its condition holds"""
        got = any(got_claim == claim for got_claim, _ in given)
        if not got:
            self.ip.prove(z3.Not(condition), f'{claim}: reported whenever it holds')

    # Loops

    def roles(self, frame, sets):
        found = {}
        for name, role in sets.items():
            keys = frame.locals.get(name)
            if not isinstance(keys, SDict):
                raise Unsupported(f'no set of names {name}')
            found[role] = keys
        return found

    def start(self, frame):
        found = [val for val in frame.locals.values() if isinstance(val, SList) and not isinstance(val, Names)]
        if len(found) != 1:
            raise Unsupported('the list of warnings')
        if self.warnings is None:
            self.warnings = found[0]
        elif self.warnings is not found[0]:
            raise Unsupported('the list of warnings')

    def body(self, frame, node, element):
        ip = self.ip
        interp.assign(ip, frame, node.target, element)
        try:
            signal = interp.block(ip, frame, node.body)
        except PyExc as exc:
            ip.prove(False, f'the linter fails: {exc.obj.cls.__name__}')
            raise PathEnd() from exc
        ip.prove(signal is None or signal[0] == 'continue', 'the loop goes on')

    def loop(self, ip, frame, node, spc):
        self.start(frame)
        scope = scope_of(ip, spc) if not isinstance(getattr(spc.at, '__self__', None), Base) else None
        if scope is not None:
            return self.statements(frame, node, spc, scope)
        content = getattr(spc.at, '__self__', None)
        if not isinstance(content, Base):
            raise Unsupported('loop of the linter')
        names = self.frame_args(frame)
        if names is not None and content is names.content:
            return self.arguments(frame, node, spc, names)
        if z3.is_app(content.t) and content.t.decl().name().startswith('sorted_keys'):
            return self.sorted_names(frame, node, spc, content.t.arg(0))
        raise Unsupported('loop of the linter')

    def frame_args(self, frame):
        return getattr(self.top, 'args', None) if self.top.inner is not None else None

    def statements(self, frame, node, spc, scope):
        """The loop over the statements of a scope"""
        ip = self.ip
        top = scope is self.top
        if not top and scope is not self.top.inner:
            raise Unsupported('statements of another scope')
        sets = self.roles(frame, GLOBAL_SETS if top else FUNCTION_SETS)
        key = (scope.name, 'statements')
        ip.prove(key not in self.covered, 'one pass over the statements')
        for role, keys in sets.items():
            ip.prove(keys.base is None and not keys.writes, f'{role}: empty at first')
        self.given += self.take()
        which = ip.pick(['iteration', 'exit'])
        k = ip.fresh('int', 'k').t if which == 'iteration' else scope.n
        for role, keys in sets.items():
            forget(ip, keys, scope.before(role, k))
        if not top and which == 'iteration':
            outer = {role: (keys.base, list(keys.writes)) for role, keys in self.roles(frame, GLOBAL_SETS).items()}
        if which == 'exit':
            self.covered.add(key)
            for name in interp.stored_names(node):
                if not isinstance(frame.locals.get(name), (SDict, SList)) or name not in GLOBAL_SETS and name not in FUNCTION_SETS:
                    frame.locals.pop(name, None)
                    frame.forgotten.add(name)
            return None
        ip.assume(z3.And(k >= 0, k < scope.n))
        self.given = []
        self.covered = {item for item in self.covered if top is False}
        self.body(frame, node, generic(ip, spc, k))
        if not top:
            after = self.roles(frame, GLOBAL_SETS)
            ip.prove(all(after[role].base is base and len(after[role].writes) == len(writes) for role, (base, writes) in outer.items()), 'the sets of the script are unchanged')
        given = self.given + self.take()
        xv = V.str(ip.input('str', 'x').t)
        for role, keys in self.roles(frame, GLOBAL_SETS if top else FUNCTION_SETS).items():
            check_values(ip, keys)
            ip.prove(member(ip, keys, xv) == scope.after(role, k)(xv), f'{scope.name}: names {role}')
        self.check_statement(scope, k, given, top)
        raise PathEnd()

    def check_statement(self, scope, k, given, top):
        ip = self.ip
        kind = scope.current_kind
        allowed = {}
        if kind == 'expression':
            allowed['Pointless global statement' if top else 'Pointless statement'] = (None, POINTLESS(scope.expr.t))
        if kind == 'label':
            label = ip.inputs[f'{scope.name}_label'].t
            claim = 'Redefinition of global label' if top else 'Redefinition of label'
            condition = HOLDS['label_defined'](scope.t, k, V.str(label))
            allowed[claim] = (label, condition)
            self.exact(given, claim, condition)
        if kind == 'function' and top:
            name = ip.inputs[f'{scope.name}_function'].t
            condition = HOLDS['function_defined'](scope.t, k, V.str(name))
            allowed['Redefinition of function'] = (name, condition)
            self.exact(given, 'Redefinition of function', condition)
            body = scope.inner
            ip.prove((body.name, 'statements') in self.covered, 'the statements of a function are checked')
            ip.prove((body.name, 'label_used') in self.covered, 'the unknown labels of a function are checked')
            if scope.args is not None:
                ip.prove((body.name, 'arguments') in self.covered, 'the arguments of a function are checked')
        self.justify(given, allowed, f'for a statement of kind {kind}')

    def sorted_names(self, frame, node, spc, base):
        """A loop over the sorted names of one of the sets: a warning for a name depends on the name alone"""
        ip = self.ip
        keys = next((val for val in frame.locals.values() if isinstance(val, SDict) and val.base is not None and val.base.eq(base)), None)
        if keys is None or keys.writes or keys.fact is None:
            raise Unsupported('the set that a loop walks')
        function = self.in_function(frame)
        scope = self.top.inner if function else self.top
        probe = V.str(z3.String('probe'))
        role = next((role for role in ROLES if keys.fact(probe).eq(HOLDS[role](scope.t, scope.n, probe))), None)
        if role is None:
            raise Unsupported('the set that a loop walks')
        self.given += self.take()
        before = {name: (val.base, len(val.writes)) for name, val in frame.locals.items() if isinstance(val, SDict) and not isinstance(val, ModelDict)}
        if ip.pick(['iteration', 'exit']) == 'exit':
            self.covered.add((scope.name, role))
            for name in interp.stored_names(node):
                frame.locals.pop(name, None)
                frame.forgotten.add(name)
            return None
        k = ip.fresh('int', 'k').t
        ip.assume(z3.And(k >= 0, k < ival(spc.n)))
        element = spc.at(ip, k)
        name = V.s(ip.to_v(element))
        xv = ip.to_v(element)
        ip.assume(z3.And(V.is_str(xv), DHAS(base, xv), keys.fact(xv)))
        self.body(frame, node, element)
        given = self.take()
        after = {name: (val.base, len(val.writes)) for name, val in frame.locals.items() if isinstance(val, SDict) and name in before}
        ip.prove(all(after.get(name) is not None and after[name][0] is value[0] and after[name][1] == value[1] for name, value in before.items()), 'the sets of names are unchanged')
        of_function = function
        holds = lambda other: HOLDS[other](scope.t, scope.n, xv)
        unknown = 'Unknown label' if of_function else 'Unknown global label'
        unused = 'Unused label' if of_function else 'Unused global label'
        allowed = {unknown: (name, z3.And(holds('label_used'), z3.Not(holds('label_defined')))), unused: (name, z3.And(holds('label_defined'), z3.Not(holds('label_used'))))}
        if of_function:
            allowed['Unused variable'] = (name, z3.And(holds('assigned'), z3.Not(holds('used'))))
        if role not in ('label_used', 'label_defined'):
            for claim in (unknown, unused):
                allowed.pop(claim)
        self.justify(given, allowed, f'for a name {role}')
        if role == 'label_used':
            self.exact(given, unknown, z3.Not(holds('label_defined')))
        raise PathEnd()

    def in_function(self, frame):
        return self.top.inner is not None and (self.top.name, 'statements') not in self.covered

    def arguments(self, frame, node, spc, names):
        """The loop over the argument names of a function"""
        ip = self.ip
        scope = self.top.inner
        sets = [(name, val) for name, val in frame.locals.items() if isinstance(val, SymSet)]
        dicts = [(name, val) for name, val in frame.locals.items()
                 if isinstance(val, SDict) and not isinstance(val, ModelDict) and val.base is None and not val.writes and name not in FUNCTION_SETS]
        if len(sets) + len(dicts) != 1:
            raise Unsupported('the set of arguments')
        (set_name, keys), = sets + dicts
        ip.prove(not (keys.items if isinstance(keys, SymSet) else keys.writes), 'no arguments at first')
        self.given += self.take()
        if ip.pick(['iteration', 'exit']) == 'exit':
            self.covered.add((scope.name, 'arguments'))
            for name in interp.stored_names(node) | {set_name}:
                frame.locals.pop(name, None)
                frame.forgotten.add(name)
            return None
        k = ip.fresh('int', 'k').t
        ip.assume(z3.And(k >= 0, k < ival(spc.n)))
        seen = z3.Function('argument_before', z3.IntSort(), V, z3.BoolSort())
        if isinstance(keys, SymSet):
            keys = frame.locals[set_name] = NameSet(lambda x: seen(k, x))
        else:
            forget(ip, keys, lambda x: seen(k, x), None)
        element = spc.at(ip, k)
        xv = ip.to_v(element)
        self.body(frame, node, element)
        given = self.take()
        y = V.str(ip.input('str', 'y').t)
        ip.prove(member(ip, keys, y) == z3.Or(seen(k, y), y == xv), 'the arguments so far')
        allowed = {'Duplicate argument': (V.s(xv), seen(k, xv)), 'Unused argument': (V.s(xv), z3.Not(HOLDS['used'](scope.t, scope.n, xv)))}
        self.justify(given, allowed, 'for an argument')
        self.exact(given, 'Duplicate argument', seen(k, xv))
        raise PathEnd()


def lint_obligation(kinds):
    def check(ip):
        lint = Lint(ip, kinds)
        script = ModelDict(ip, None, [('statements', lint.top.seq)])
        got = inline(ip, mod.lint_script, script)
        ip.prove(got.ok, 'the linter does not fail')
        if not got.ok:
            return
        result = ip.unwrap(got.value)
        if lint.warnings is None:
            raise Unsupported('no loop of the linter')
        ip.prove(result is lint.warnings, 'the result is the list of warnings')
        lint.justify(lint.given + lint.take(), {}, 'outside the loops')
        ip.prove((lint.top.name, 'statements') in lint.covered, 'the statements are checked')
        ip.prove((lint.top.name, 'label_used') in lint.covered, 'the unknown labels are checked')
    return check


for _kinds in (('assignment', 'expression', 'jump', 'jumpif', 'return', 'return value', 'label', 'include'), ('function',)):
    obligation(f'lint.script ({"function" if _kinds == ("function",) else "statement"})', ['C18', 'C07'], ['model.lint_script'], limit_s=200)(lint_obligation(_kinds))
