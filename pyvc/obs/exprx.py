"""Obligations of the expression parser (C02, C06): the tree of every text is the one that specs/parse_spec.py says, and errors are located in the text"""

import ast

import z3

from bare_script import parser
from bare_script.parser import BareScriptParserError
from pyvc import interp
from pyvc.dsl import inline, obligation, prove_same, prove_same_content
from pyvc.engine import DHAS, SV, Base, Lit, Model, PathEnd, PyExc, SDict, SList, Unsupported, content_cat, func, str_term
from pyvc.obs.parsex import DICT, parser_error, text
from specs import parse_spec
from specs.expr_spec import PREC

PROPS = ['C02', 'C06', 'C10']


#
# The contracts: a result that is a function of the text, with a rest at its end; or an error at its end
#

def is_end(rest, whole):
    return z3.And(z3.SuffixOf(rest, whole), z3.Length(rest) <= z3.Length(whole))


def parsed(ip, name, source):
    """(tree, rest), or the path of the error (message, rest)"""
    source = str_term(ip.unwrap(source))
    if source is None:
        raise Unsupported('parsing a value that is not a text')
    rest = func(f'{name}_rest', ['str'], 'str')(source)
    ip.assume(is_end(rest, source))
    if ip.branch(func(f'{name}_ok', ['str'], 'bool')(source)):
        tree = SV('val', func(f'{name}_tree', ['str'], 'val')(source))
        if tree.t.get_id() not in ip.kinds:
            ip.set_kinds(tree, DICT)
        if name == 'unary':
            # An operand is not a tree of a binary operator
            ip.assume(z3.Not(DHAS(ip.unwrap(tree).base, ip.to_v('binary'))))
        return tree, SV('str', rest)
    return SV('str', func(f'{name}_message', ['str'], 'str')(source)), SV('str', rest), None


def code_contract(name):
    def contract(ip, args, kwargs):
        if kwargs or len(args) != 1:
            raise Unsupported('arguments of the parsing helper')
        result = parsed(ip, name, args[0])
        if len(result) == 3:
            raise PyExc(parser_error(ip, [result[0], result[1]], {}))
        return SList(ip, Lit(list(result)))
    return contract


class SpecError(Exception):
    def __init__(self, message, rest):
        super().__init__()
        self.message, self.rest = message, rest


def spec_contract(name):
    def contract(ip, args, kwargs):
        result = parsed(ip, name, args[0])
        if len(result) == 3:
            raise SpecError(result[0], result[1])
        return result
    return Model(contract)


def contracts(ip, *names):
    ip.contracts[BareScriptParserError] = parser_error
    for name in names:
        fn = getattr(parser, f'_parse_{name}_expression', None)
        if fn is None:
            raise Unsupported(f'no function _parse_{name}_expression')
        ip.contracts[fn] = code_contract(name)


def spec_of(ip, fn, *args):
    """(result, None), or (None, (message, rest)) of the specification"""
    try:
        result = inline(ip, fn, *args)
    except SpecError as error:
        return None, (error.message, error.rest)
    if not result.ok:
        if result.exc.cls is not parse_spec.Syntax:
            raise Unsupported(f'the specification raises {result.exc.cls.__name__}')
        return None, tuple(result.exc.args)
    return result.value, None


def located(ip, exc, error, whole, what='the error'):
    ip.prove(exc.cls is BareScriptParserError, f'{what} is a BareScriptParserError ({exc.cls.__name__})')
    if exc.cls is not BareScriptParserError:
        return
    ip.prove(error is not None, f'an error where the text goes on ({exc.attrs["error"]})')
    if error is None:
        return
    prove_same(ip, exc.attrs['error'], error[0], f'{what}: the message')
    prove_same(ip, exc.attrs['line'], error[1], f'{what}: the rest of the text')
    ip.prove(is_end(str_term(ip.unwrap(exc.attrs['line'])), whole), f'{what}: its text is the end of the text')


def pair(ip, value):
    """The tree and the rest that a helper returns"""
    if isinstance(value, SList) and isinstance(value.content, Lit) and len(value.content.items) == 2:
        return value.content.items
    if isinstance(value, tuple) and len(value) == 2:
        return value
    raise Unsupported('form of the result of a parsing helper')


def number_texts(ip, source):
    """The number pattern only matches texts of numbers"""
    pattern = parse_spec.token('NUMBER')
    group = func(f'group:1:match:{pattern.pattern}:{pattern.flags}', ['str'], 'str')(source)
    outcome = func('float_of_str_outcome', ['str'], 'int')(group)
    ip.assume(z3.Or(outcome == 0, outcome == 3))


#
# Operands
#

class Arguments:
    """The loop over the arguments of a call: its result is a function of the text"""

    def __init__(self, source):
        self.source = source
        self.args = None


def arguments_result(ip, source):
    """(args, rest), or the error"""
    source = str_term(ip.unwrap(source))
    rest = func('arguments_rest', ['str'], 'str')(source)
    ip.assume(is_end(rest, source))
    if ip.branch(func('arguments_ok', ['str'], 'bool')(source)):
        return SV('val', func('arguments_tree', ['str'], 'val')(source)), SV('str', rest)
    return None, (SV('str', func('arguments_message', ['str'], 'str')(source)), SV('str', rest))


def loop_locals(frame):
    for name in ('args', 'arg_text'):
        if name not in frame.locals:
            raise Unsupported(f'_parse_unary_expression has no variable {name}')
    return frame.locals['args'], frame.locals['arg_text']


@obligation('parse_unary.operand', PROPS, ['parser._parse_unary_expression'])
def _(ip):
    """The operand that a text begins with (the arguments of a call by the contract of their loop)"""
    contracts(ip, 'binary', 'unary')
    source = text(ip, 'expr_text')
    number_texts(ip, source.t)

    def loop(ip2, frame, node, spc):
        args, arg_text = loop_locals(frame)
        prove_same_content(ip2, args.content, Lit([]), 'no arguments at first')
        first, second = arguments_result(ip2, arg_text)
        if first is None:
            raise PyExc(parser_error(ip2, list(second), {}))
        frame.locals['args'], frame.locals['arg_text'] = first, second
        return None

    def arguments(ip2, args, kwargs):
        first, second = arguments_result(ip2, args[0])
        if first is None:
            raise SpecError(*second)
        return first, second

    ip.loop_contracts['_parse_unary_expression'] = loop
    result = inline(ip, parser._parse_unary_expression, source)  # pylint: disable=protected-access
    spec, error = spec_of(ip, parse_spec.operand, source, spec_contract('unary'), spec_contract('binary'), Model(arguments))
    if not result.ok:
        located(ip, result.exc, error, source.t)
        return
    ip.prove(error is None, 'no error')
    if error is not None:
        return
    tree, rest = pair(ip, result.value)
    prove_same(ip, tree, spec[0], 'the operand')
    prove_same(ip, rest, spec[1], 'the rest')
    ip.prove(is_end(str_term(ip.unwrap(rest)), source.t), 'the rest is the end of the text')
    ip.prove(not ip.truth(ip.unwrap(tree).contains(ip, 'binary')), 'an operand is not a tree of a binary operator')


@obligation('parse_unary.arguments', PROPS, ['parser._parse_unary_expression'])
def _(ip):
    """One iteration of the loop over the arguments, from any list of arguments so far"""
    contracts(ip, 'binary', 'unary')
    source = text(ip, 'expr_text')
    before = Base(ip, ip.fresh('content', 'args').t, DICT)
    so_far = text(ip, 'arg_text')

    def loop(ip2, frame, node, spc):
        loop_locals(frame)
        args = SList(ip2, before)
        frame.locals['args'], frame.locals['arg_text'] = args, so_far
        if not ip2.truth(interp.ev(ip2, frame, node.test)):
            raise Unsupported('form of the loop over the arguments')
        error, signal = None, None
        try:
            signal = interp.block(ip2, frame, node.body)
        except PyExc as exc:
            error = exc.obj
        spec, spec_error = spec_of(ip2, parse_spec.argument, SV('int', before.n), so_far, spec_contract('binary'))
        if error is not None:
            located(ip2, error, spec_error, so_far.t)
            raise PathEnd()
        ip2.prove(spec_error is None, 'no error')
        if spec_error is not None:
            raise PathEnd()
        tree, rest = spec
        args, arg_text = loop_locals(frame)
        if signal is not None and signal[0] == 'return':
            raise Unsupported('form of the loop over the arguments')
        ended = signal is not None and signal[0] == 'break'
        ip2.prove(ended == (tree is None), 'the list ends')
        prove_same(ip2, arg_text, rest, 'the rest')
        ip2.prove(is_end(str_term(ip2.unwrap(arg_text)), so_far.t), 'the rest is the end of the text')
        if ended == (tree is None):
            prove_same_content(ip2, args.content, before if ended else content_cat(before, Lit([tree])), 'the arguments')
        raise PathEnd()

    ip.loop_contracts['_parse_unary_expression'] = loop
    inline(ip, parser._parse_unary_expression, source)  # pylint: disable=protected-access
    raise PathEnd()


#
# Operators
#

def operator_text(ip, name):
    op = text(ip, name)
    ip.assume(z3.Or([op.t == z3.StringVal(choice) for choice in PREC]))
    return op


def tree(ip, name, binary=None):
    """A tree: one of an operator, or another one"""
    if binary if binary is not None else ip.pick(['operand', 'operator']) == 'operator':
        return SDict(ip, None, [('binary', SDict(ip, None, [('op', operator_text(ip, f'{name}_op')), ('left', ip.input('val', f'{name}_left', DICT)),
                                                             ('right', tree_of(ip, f'{name}_right'))]))])
    other = ip.unwrap(ip.input('val', name, DICT))
    ip.assume(z3.Not(DHAS(other.base, ip.to_v('binary'))))
    return other


def tree_of(ip, name):
    """The right operand of a tree: what the loop looks at"""
    if ip.pick(['operand', 'operator']) == 'operand':
        return tree(ip, name, False)
    return SDict(ip, None, [('binary', SDict(ip, None, [('op', operator_text(ip, f'{name}_op')), ('left', ip.input('val', f'{name}_left', DICT)), ('right', ip.input('val', f'{name}_right', DICT))]))])


def field(ip, dct, *names):
    for name in names:
        found, dct = dct.lookup(ip, name)
        if not found:
            raise Unsupported(f'no {name} in a tree')
    return dct


def lower(ip, node, op):
    """A condition: the node is one of an operator that binds less tight"""
    if not ip.truth(node.contains(ip, 'binary')):
        return z3.BoolVal(False)
    mine = str_term(ip.unwrap(field(ip, node, 'binary', 'op')))
    return precedence(mine) < precedence(op)


def precedence(op):
    term = z3.IntVal(-1)
    for name, level in PREC.items():
        term = z3.If(op == z3.StringVal(name), z3.IntVal(level), term)
    return term


def snapshot(ip, node):
    return node, dict(field(ip, node, 'binary').concrete())


def is_unchanged(ip, shot, but=()):
    node, fields = shot
    now = field(ip, node, 'binary').concrete()
    ip.prove(list(now) == list(fields) and list(node.concrete()) == ['binary'], 'the fields of the tree')
    for name, value in fields.items():
        if name not in but:
            ip.prove(now[name] is value, f'the {name} of the tree is unchanged')


def step_obligation(case, op_text):
    @obligation(f'parse_binary.step ({case}{f", {op_text}" if op_text else ""})', PROPS, ['parser._parse_binary_expression'])
    def _(ip):
        binary_step(ip, case, op_text)


for _case in ('first', 'operand'):
    step_obligation(_case, None)
for _op in PREC:
    step_obligation('operator', _op)


def binary_step(ip, case, op_text):
    """An operator and an operand are inserted into the tree of what is to their left, where the levels say; without an operator the tree is the result"""
    contracts(ip, 'unary')
    source = text(ip, 'expr_text')
    left = None
    if case != 'first':
        left = tree(ip, 'left', case == 'operator')
    if op_text is not None:
        pattern = parse_spec.token('BINARY_OP')
        ip.assume(func(f'group:1:match:{pattern.pattern}:{pattern.flags}', ['str'], 'str')(source.t) == z3.StringVal(op_text))
    shot = snapshot(ip, left) if left is not None and left.contains(ip, 'binary') else None
    calls = []
    end = Model(lambda ip2, args, kwargs: None)

    def recursion(ip2, args, kwargs):
        names = ('expr_text', 'bin_left_expr')
        values = {**dict(zip(names, args)), **kwargs}
        calls.append(values)
        return end

    ip.contracts[parser._parse_binary_expression] = recursion  # pylint: disable=protected-access
    pointer = []

    def loop(ip2, frame, node, spc):
        # The descent to the right: at the head of the loop, the local that the loop moves is a tree of an operator that binds less tight
        names = {child.id for stmt in node.body for child in ast.walk(stmt) if isinstance(child, ast.Name) and isinstance(child.ctx, ast.Store)}
        found = [name for name in sorted(names) if frame.locals.get(name) is left]
        if len(found) != 1 or shot is None or any(name in frame.locals for name in names if name not in found):
            raise Unsupported('form of the descent into the tree')
        name, = found
        case = ip2.pick(['step', 'exit at the left tree', 'exit further to the right'])
        op = str_term(ip2.unwrap(parse_op(ip2)))
        if case == 'exit at the left tree':
            ip2.prove(lower(ip2, left, op), 'the tree binds less tight')
            node_at = left
        else:
            node_at = tree(ip2, 'node', True)
            ip2.assume(lower(ip2, node_at, op))
            frame.locals[name] = node_at
        node_shot = snapshot(ip2, node_at)
        goes_on = ip2.truth(interp.ev(ip2, frame, node.test))
        if goes_on:
            signal = interp.block(ip2, frame, node.body)
            if signal is not None and signal[0] == 'break':
                goes_on = False
                ip2.prove(frame.locals[name] is node_at, 'the descent stays where it ends')
                is_unchanged(ip2, node_shot)
                is_unchanged(ip2, shot)
            elif signal is not None and signal[0] != 'continue':
                raise Unsupported('form of the descent into the tree')
        if goes_on != (case == 'step'):
            raise PathEnd()
        if case == 'step':
            ip2.prove(frame.locals[name] is node_shot[1]['right'], 'the descent goes to the right operand')
            if frame.locals[name] is node_shot[1]['right']:
                ip2.prove(lower(ip2, frame.locals[name], op), 'the right operand binds less tight')
            is_unchanged(ip2, node_shot)
            is_unchanged(ip2, shot)
            raise PathEnd()
        ip2.prove(z3.Not(lower(ip2, node_shot[1]['right'], op)), 'the descent ends where the right operand binds as tight')
        pointer.append(node_shot)
        return None

    def parse_op(ip2):
        # The operator that the text goes on with
        return parse_spec.token('BINARY_OP') and ip2.call(parse_spec.operator, [start(ip2), spec_contract('unary')], {})[0]

    def start(ip2):
        if left is not None:
            return source
        return parsed(ip2, 'unary', source)[1]

    ip.loop_contracts['_parse_binary_expression'] = loop
    args = [source] if left is None else [source, left]
    result = inline(ip, parser._parse_binary_expression, *args)  # pylint: disable=protected-access

    # The specification
    first, rest = left, source
    if left is None:
        found = parsed(ip, 'unary', source)
        if len(found) == 3:
            ip.prove(not result.ok, 'an error')
            if not result.ok:
                located(ip, result.exc, found[:2], source.t)
            return
        first, rest = found
    spec, error = spec_of(ip, parse_spec.operator, rest, spec_contract('unary'))
    if not result.ok:
        located(ip, result.exc, error, source.t)
        return
    ip.prove(error is None, 'no error')
    if error is not None:
        return
    if spec is None:
        ip.prove(not calls and result.value is not end, 'the chain ends')
        if result.value is not end:
            end_tree, end_rest = pair(ip, result.value)
            prove_same(ip, end_tree, first, 'the tree')
            prove_same(ip, end_rest, rest, 'the rest')
            if shot is not None:
                is_unchanged(ip, shot)
        return
    if result.value is not end or len(calls) != 1:
        raise Unsupported('form of the chain of operators')
    op, right, rest = spec
    call = calls[0]
    prove_same(ip, call['expr_text'], rest, 'the rest')
    ip.prove(is_end(str_term(ip.unwrap(call['expr_text'])), source.t), 'the rest is the end of the text')
    got = call.get('bin_left_expr')
    if pointer:
        # The result is the left tree, with the operator inserted at the end of the descent
        node, fields = pointer[0]
        ip.prove(got is left, 'the tree is the left tree')
        is_unchanged(ip, shot, ('right',) if node is left else ())
        is_unchanged(ip, pointer[0], ('right',))
        inserted = SDict(ip, None, [('binary', SDict(ip, None, [('op', op), ('left', fields['right']), ('right', right)]))])
        prove_same(ip, field(ip, node, 'binary', 'right'), inserted, 'the right operand')
        return
    is_lower = lower(ip, ip.unwrap(first), str_term(ip.unwrap(op))) if left is not None else z3.BoolVal(False)
    ip.prove(z3.Not(is_lower), 'the tree binds as tight as the operator')
    made = SDict(ip, None, [('binary', SDict(ip, None, [('op', op), ('left', first), ('right', right)]))])
    prove_same(ip, got, made, 'the tree')
    if shot is not None:
        is_unchanged(ip, shot)


@obligation('parse_binary.insert', ['C02'], ['specs/parse_spec.py: insert (lemma over the step that parse_binary.step establishes)'])
def _(ip):
    """Lemma: insert keeps a tree in the form that the precedence levels dictate (a left operand binds at least as tight as the operator, a right operand binds tighter) and
    appends the operator and the operand to its tokens. By induction on the right operands."""
    tree_sort = z3.DeclareSort('Tree')
    tokens = z3.SeqSort(z3.IntSort())
    binary = z3.Function('binary', z3.IntSort(), tree_sort, tree_sort, tree_sort)
    level, formed, sequence = z3.Function('level', tree_sort, z3.IntSort()), z3.Function('formed', tree_sort, z3.BoolSort()), z3.Function('sequence', tree_sort, tokens)
    precedence_of = z3.Function('precedence', z3.IntSort(), z3.IntSort())
    result = z3.Function('insert', tree_sort, tree_sort)
    left, right, operand = z3.Consts('left right operand', tree_sort)
    mine, op = z3.Ints('mine op')
    top = len(PREC)

    def define(at, left_tree, right_tree):
        """The definitions, at a tree of an operator"""
        node = binary(at, left_tree, right_tree)
        ip.assume(level(node) == precedence_of(at))
        ip.assume(formed(node) == z3.And(formed(left_tree), formed(right_tree), level(left_tree) >= precedence_of(at), level(right_tree) > precedence_of(at)))
        ip.assume(sequence(node) == z3.Concat(sequence(left_tree), z3.Unit(at), sequence(right_tree)))
        return node

    def claims(node):
        return [formed(result(node)), level(result(node)) == z3.If(level(node) < precedence_of(op), level(node), precedence_of(op)),
                sequence(result(node)) == z3.Concat(sequence(node), z3.Unit(op), sequence(operand))]

    for name in (mine, op):
        ip.assume(z3.And(precedence_of(name) >= 0, precedence_of(name) < top))
    ip.assume(z3.And(formed(operand), level(operand) == top))
    if ip.pick(['an operand', 'a tree of an operator']) == 'an operand':
        node = left
        ip.assume(z3.And(formed(node), level(node) == top))
    else:
        node = define(mine, left, right)
        ip.assume(formed(node))
        # The induction hypothesis
        ip.assume(z3.Implies(formed(right), z3.And(*claims(right))))
    inner, outer = define(mine, left, result(right)), define(op, node, operand)
    ip.assume(result(node) == z3.If(level(node) < precedence_of(op), inner, outer))
    for what, claim in zip(('the form', 'the level', 'the tokens'), claims(node)):
        ip.prove(claim, what)


#
# The expression, and the message of an error
#

@obligation('parse_expression.spec', PROPS, ['parser.parse_expression'])
def _(ip):
    """The whole text is one expression, or an error with the column where it does not go on"""
    contracts(ip, 'binary')
    source = text(ip, 'expr_text')
    result = inline(ip, parser.parse_expression, source)
    found = parsed(ip, 'binary', source)
    if len(found) == 2:
        blank = ip.truth(inline(ip, parse_spec.is_blank, found[1]).unwrap())
        error = None if blank else ('Syntax error', found[1])
    else:
        error = found[:2]
    ip.prove(result.ok == (error is None), f'an error where the text does not go on ({error is None})')
    if result.ok:
        if error is None:
            prove_same(ip, result.value, found[0], 'the tree')
        return
    exc = result.exc
    ip.prove(exc.cls is BareScriptParserError, f'the error is a BareScriptParserError ({exc.cls.__name__})')
    if error is None or exc.cls is not BareScriptParserError:
        return
    prove_same(ip, exc.attrs['error'], error[0], 'the message')
    prove_same(ip, exc.attrs['line'], source, 'the line')
    column = ip.int_of(exc.attrs['column_number'])
    rest = str_term(ip.unwrap(error[1]))
    ip.prove(z3.And(column >= 1, column <= z3.Length(source.t) + 1), 'the column is in the text')
    ip.prove(z3.SubString(source.t, column - 1, z3.Length(source.t)) == rest, 'the text from the column on is the rest')


@obligation('parser_error.message', ['C06'], ['parser.BareScriptParserError.__init__'])
def _(ip):
    """The message ends with the shown part of the line and the caret; the caret is under the character of the column"""
    line, column = text(ip, 'line'), ip.input('int', 'column_number')
    ip.assume(z3.And(column.t >= 1, column.t <= z3.Length(line.t) + 1))
    number = ip.input('int', 'line_number') if ip.pick(['no line number', 'line number']) == 'line number' else None
    prefix = text(ip, 'prefix') if ip.pick(['no prefix', 'prefix']) == 'prefix' else None
    error = ip.call(BareScriptParserError, [text(ip, 'error'), line, column, number, prefix], {})
    part = inline(ip, parse_spec.window, line, column).unwrap()
    before, start, stop, rest = part
    message = str_term(ip.unwrap(inline(ip, parse_spec.message_text, error).unwrap()))
    end = str_term(ip.unwrap(inline(ip, parse_spec.message_end, line, column, before, start, stop, rest).unwrap()))
    ip.prove(z3.SuffixOf(end, message), 'the end of the message')
    at, start, stop = column.t - 1, ip.int_of(start), ip.int_of(stop)
    ip.prove(z3.And(0 <= start, start <= at, at <= stop, stop <= z3.Length(line.t)), 'the column is in the shown part')
    ip.prove(z3.Implies(at < z3.Length(line.t), at < stop), 'the character of the column is shown')
    for name, value in (('line', line), ('column_number', column), ('line_number', number)):
        prove_same(ip, error.attrs[name], value, name)
