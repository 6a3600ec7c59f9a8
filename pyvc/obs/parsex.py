"""Obligations of the parser: every line has the effect that specs/line_spec.py says, from every parser state (C01, C06, C07, C10)"""

import z3

from bare_script import parser
from bare_script.parser import BareScriptParserError
from pyvc import interp
from pyvc.dsl import forget_assigned, inline, obligation, prove_same, prove_same_content
from pyvc.engine import SV, Base, Cat, ExcObj, Lit, MapC, Model, PathEnd, PyExc, SDict, SList, Slice, Unsupported, content_cat, func, ival, str_term
from specs import line_spec

DICT = frozenset(['dict'])


#
# Contracts
#


def parser_error(ip, args, kwargs):
    """BareScriptParserError(error, line, column_number, line_number): its attributes (parse_error.message is about its text)"""
    names = ('error', 'line', 'column_number', 'line_number', 'prefix')
    values = {'column_number': 1, 'line_number': None, 'prefix': None}
    values.update(zip(names, args))
    values.update(kwargs)
    return ExcObj(BareScriptParserError, list(args), {name: values[name] for name in names[:4]})


def parse_expression_contract(ip, args, kwargs):
    """An expression model that is a function of the text, or an error with a column in the text"""
    text = str_term(ip.unwrap(args[0]))
    if text is None:
        raise Unsupported('parse_expression of a value that is not a text')
    if ip.branch(func('parses', ['str'], 'bool')(text)):
        sv = SV('val', func('parse_result', ['str'], 'val')(text))
        if sv.t.get_id() not in ip.kinds:
            ip.set_kinds(sv, DICT)
        return sv
    column = func('parse_column', ['str'], 'int')(text)
    ip.assume(z3.And(column >= 1, column <= z3.Length(text) + 1))
    raise PyExc(parser_error(ip, [SV('str', func('parse_message', ['str'], 'str')(text)), args[0], SV('int', column)], {}))


def contracts(ip):
    ip.contracts[parser.parse_expression] = parse_expression_contract
    ip.contracts[BareScriptParserError] = parser_error


#
# The parser state, built for the code and for the specification from the same symbols
#

FIELDS = {
    'if': ('jump', 'done', ('hasElse', 'else'), 'line', ('lineNumber', 'number')),
    'while': ('loop', 'continue', 'done', 'expr', ('hasContinue', 'continued'), 'line', ('lineNumber', 'number')),
    'for': ('loop', 'continue', 'done', 'index', 'length', ('hasContinue', 'continued'), 'line', ('lineNumber', 'number'))
}
LABELS = {'if': ('done',), 'while': ('loop', 'continue', 'done'), 'for': ('loop', 'continue', 'done')}


def text(ip, name):
    return ip.input('str', name)


def symbols(ip, scope, shape, continued):
    """The symbols of a state"""
    sym = {'scope': scope, 'shape': shape, 'continued': continued}
    sym['before'] = ip.fresh('content', 'statements').t
    sym['after'] = ip.fresh('content', 'statements2').t
    sym['script'] = ip.fresh('content', 'script').t
    sym['outer'] = ip.fresh('content', 'outer').t
    sym['inner'] = ip.fresh('content', 'inner').t
    sym['count'] = ip.input('int', 'count')
    ip.assume(sym['count'].t >= 0)
    sym['start'] = ip.input('int', 'start_line_number')
    sym['part_ix'] = ip.input('int', 'ix_line_part')
    ip.assume(sym['part_ix'].t >= 0)
    sym['part'] = text(ip, 'line_part')
    # The parts of an unfinished line
    sym['lines'] = ip.fresh('content', 'continued').t
    sym['first_ix'] = ip.input('int', 'first_line')
    ip.assume(z3.And(sym['first_ix'].t >= 0, sym['first_ix'].t <= sym['part_ix'].t))
    # The function
    sym['function_name'] = text(ip, 'function_name')
    sym['function_line'] = text(ip, 'function_line')
    sym['function_number'] = ip.input('int', 'function_number')
    # The block
    for kind in ('if', 'while', 'for'):
        for label in LABELS[kind] + ('jump',):
            sym[kind, label] = text(ip, f'{kind}_{label}')
        sym[kind, 'line'] = text(ip, f'{kind}_line')
        sym[kind, 'number'] = ip.input('int', f'{kind}_number')
        sym[kind, 'expr'] = ip.input('val', f'{kind}_expr', DICT)
    sym['for', 'index'], sym['for', 'length'] = text(ip, 'for_index'), text(ip, 'for_length')
    sym['ifs'] = ip.input('int', 'ifs')
    ip.assume(sym['ifs'].t >= 1)
    kind = 'if' if shape in ('if', 'outer if') else ('while' if 'while' in shape else 'for')
    sym['kind'] = kind
    sym['flag'] = shape not in ('empty', 'ifs', 'outer') and ip.pick(['no', 'yes']) == 'yes'
    if kind == 'while' and ip.pick(['test', 'no test']) == 'no test':
        # A loop on true
        sym['while', 'continue'] = sym['while', 'loop']
    return sym


def make_jump(ip, sym):
    return SDict(ip, None, [('label', sym['if', 'jump']), ('expr', sym['if', 'expr'])])


def block_entry(ip, sym, kind, jump, spec):
    """An open block, in the form of the code or of the specification"""
    fields = {'line': sym[kind, 'line']}
    for label in LABELS[kind]:
        fields[label] = sym[kind, label]
    if kind == 'if':
        fields['jump'] = jump
    if kind == 'while':
        fields['expr'] = sym[kind, 'expr']
    if kind == 'for':
        fields['index'], fields['length'] = sym['for', 'index'], sym['for', 'length']
    flag = sym['flag']
    if spec:
        fields['kind'] = kind
        fields['number'] = sym[kind, 'number']
        fields['else' if kind == 'if' else 'continued'] = flag
        return SDict(ip, None, list(fields.items()))
    fields['lineNumber'] = sym[kind, 'number']
    if kind == 'if':
        fields['hasElse'] = flag
    elif flag:
        fields['hasContinue'] = True
    if kind == 'for':
        fields['values'], fields['value'] = text(ip, 'for_values'), text(ip, 'for_value')
    return SDict(ip, None, [(kind, SDict(ip, None, list(fields.items())))])


def other_if(ip, sym, spec):
    def element(ip2, k):
        if spec:
            # The lines that look at these blocks are outside the case
            raise PathEnd()
        return SDict(ip2, None, [('if', SDict(ip2, None, []))])
    return element


class Guarded(Base):
    """Statements that the case does not look at"""

    guard = True

    def at(self, ip, k):
        if self.guard:
            raise PathEnd()
        return super().at(ip, k)


class Build:
    """One copy of the state"""

    def __init__(self, ip, sym, spec):
        scope, shape, kind = sym['scope'], sym['shape'], sym['kind']
        jump = make_jump(ip, sym)
        self.top = None
        base = Guarded if spec else Base
        out = Base(ip, sym['before'], DICT) if shape == 'first' else base(ip, sym['before'], DICT)
        self.guarded = [out]
        if kind == 'if' and shape == 'if':
            out = content_cat(content_cat(out, Lit([SDict(ip, None, [('jump', jump)])])), base(ip, sym['after'], DICT))
            self.guarded.append(out.right)
        if shape == 'include':
            includes = SList(ip, Base(ip, sym['after'], DICT))
            out = content_cat(out, Lit([SDict(ip, None, [('include', SDict(ip, None, [('includes', includes)]))])]))
        elif shape == 'statement':
            out = content_cat(out, Lit([SDict(ip, None, [('expr', SDict(ip, None, [('expr', sym['if', 'expr'])]))])]))
        elif shape == 'first':
            out = Lit([])
        # The blocks: those outside the function, those of the scope, the innermost
        blocks = Base(ip, sym['outer'], DICT) if scope == 'function' else Lit([])
        if shape == 'outermost':
            blocks = Lit([])
        if shape.startswith('outer '):
            self.top = block_entry(ip, sym, kind, jump, spec)
            blocks = content_cat(blocks, Lit([self.top]))
        self.depth = blocks.n
        if shape in ('if', 'while', 'for', 'while ifs', 'for ifs'):
            blocks = content_cat(blocks, Base(ip, sym['inner'], DICT))
            self.top = block_entry(ip, sym, kind, jump, spec)
            blocks = content_cat(blocks, Lit([self.top]))
        if shape in ('ifs', 'while ifs', 'for ifs'):
            blocks = content_cat(blocks, MapC(sym['ifs'].t, other_if(ip, sym, spec)))
        self.blocks = SList(ip, blocks)
        self.out = SList(ip, out)
        if scope == 'function':
            self.function = SDict(ip, None, [('function', SDict(ip, None, [('name', sym['function_name']), ('statements', self.out)]))])
            self.script_statements = SList(ip, content_cat(Base(ip, sym['script'], DICT), Lit([self.function])))
        else:
            self.function = None
            self.script_statements = self.out
        self.lines = SList(ip, Base(ip, sym['lines'], frozenset(['str'])) if sym['continued'] else Lit([]))
        if sym['continued']:
            ip.assume(self.lines.content.n >= 1)

    def depth_value(self):
        return self.depth if isinstance(self.depth, int) else SV('int', self.depth)


def code_locals(ip, sym):
    """The local variables of parse_script at the head of its loop"""
    copy = Build(ip, sym, False)
    in_function = sym['scope'] == 'function'
    return copy, {
        'script': SDict(ip, None, [('statements', copy.script_statements)]),
        'line_continuation': copy.lines,
        'function_def': copy.function,
        'function_label_def_depth': copy.depth_value() if in_function else None,
        'function_line': sym['function_line'] if in_function else None,
        'function_line_number': sym['function_number'] if in_function else None,
        'label_defs': copy.blocks,
        'label_index': sym['count'],
        'ix_line': sym['first_ix'] if sym['continued'] else sym['part_ix']
    }


def spec_state(ip, sym):
    copy = Build(ip, sym, True)
    in_function = sym['scope'] == 'function'
    return copy, SDict(ip, None, [
        ('lines', copy.lines), ('script', copy.script_statements), ('function', copy.function), ('depth', copy.depth_value() if in_function else 0),
        ('function_line', (sym['function_line'], sym['function_number']) if in_function else None), ('blocks', copy.blocks), ('count', sym['count'])
    ])


def get(ip, dct, name):
    found, value = dct.lookup(ip, name)
    if not found:
        raise Unsupported(f'the parser state has no {name}')
    return value


def pieces(content):
    """The pieces of a sequence"""
    if isinstance(content, Cat):
        return pieces(content.left) + pieces(content.right)
    if isinstance(content, Lit):
        return [('item', item) for item in content.items]
    if isinstance(content, Base):
        return [('base', content.t)]
    if isinstance(content, MapC):
        return [('ifs', None)]
    if isinstance(content, Slice):
        raise Unsupported('slice of the open blocks')
    raise Unsupported('form of the open blocks')


def same_blocks(ip, code, spec):
    a, b = pieces(code.content), pieces(spec.content)
    ip.prove([kind for kind, _ in a] == [kind for kind, _ in b], f'the open blocks ({[kind for kind, _ in a]}, {[kind for kind, _ in b]})')
    if [kind for kind, _ in a] != [kind for kind, _ in b]:
        return
    for (kind, x), (_, y) in zip(a, b):
        if kind == 'base':
            ip.prove(x == y, 'the outer open blocks')
        elif kind == 'item':
            block_kind = get(ip, y, 'kind')
            items = x.concrete()
            if items is None or len(items) != 1:
                raise Unsupported('form of an open block')
            (name, fields), = items.items()
            ip.prove(name == block_kind, f'the kind of the open block ({name}, {block_kind})')
            if name != block_kind:
                return
            for field in FIELDS[block_kind]:
                code_name, spec_name = field if isinstance(field, tuple) else (field, field)
                if code_name == 'hasContinue':
                    found, value = fields.lookup(ip, 'hasContinue')
                    ip.prove((found and ip.truth(value)) == get(ip, y, 'continued'), 'is the loop continued')
                else:
                    prove_same(ip, get(ip, fields, code_name), get(ip, y, spec_name), f'{code_name} of the open {block_kind}')


def same_place(ip, frame_value, spec_value, what):
    prove_same(ip, frame_value, spec_value, what)


def compare_states(ip, frame, state):
    """The local variables of parse_script are those of the specification's state"""
    def local(name):
        if name not in frame.locals:
            raise Unsupported(f'parse_script has no variable {name}')
        return frame.locals[name]

    script = local('script')
    found, statements = script.lookup(ip, 'statements')
    ip.prove(found, 'the script has statements')
    prove_same(ip, statements, get(ip, state, 'script'), 'the statements of the script')
    ip.prove(len(script.writes) == 1, 'the script has statements only')
    function, spec_function = local('function_def'), get(ip, state, 'function')
    ip.prove((function is None) == (spec_function is None), 'in a function')
    if function is not None and spec_function is not None:
        items = pieces(statements.content)
        ip.prove(items[-1][0] == 'item' and items[-1][1] is function, 'the open function is the last statement of the script')
        prove_same(ip, local('function_label_def_depth'), get(ip, state, 'depth'), 'the blocks outside the function')
        line = get(ip, state, 'function_line')
        prove_same(ip, local('function_line'), line[0], 'the line of the function')
        prove_same(ip, local('function_line_number'), line[1], 'the line number of the function')
    same_blocks(ip, local('label_defs'), get(ip, state, 'blocks'))
    blocks = pieces(local('label_defs').content)
    in_scope = function is None or ip.truth(SV('bool', ival(local('label_defs').content.n) > ip.int_of(get(ip, state, 'depth'))))
    if blocks and blocks[-1][0] == 'item' and in_scope:
        # The jump of an open if is the one among the statements: endif may still change its label
        top = blocks[-1][1].concrete()
        if 'if' in top and not ip.truth(get(ip, top['if'], 'hasElse')):
            jump = get(ip, top['if'], 'jump')
            out = get(ip, get(ip, function, 'function'), 'statements') if function is not None else statements
            ip.prove(any(kind == 'item' and isinstance(item, SDict) and any(value is jump for key, value in item.writes if key == 'jump') for kind, item in pieces(out.content)),
                     'the jump of the open if is a statement')
    prove_same(ip, local('label_index'), get(ip, state, 'count'), 'the count of the labels')
    prove_same_content(ip, local('line_continuation').content, get(ip, state, 'lines').content, 'the parts of the continued line')


def same_error(ip, exc, error, what):
    ip.prove(exc.cls is BareScriptParserError, f'{what}: BareScriptParserError (not {exc.cls.__name__})')
    if exc.cls is not BareScriptParserError:
        return
    for name, value in zip(('error', 'line', 'column_number', 'line_number'), error):
        prove_same(ip, exc.attrs[name], value, f'{what}: {name}')
    column, line = exc.attrs['column_number'], exc.attrs['line']
    # The column is in the line
    ip.prove(z3.And(ip.int_of(column) >= 1, ip.int_of(column) <= z3.Length(str_term(ip.unwrap(line))) + 1), f'{what}: the column is in the line')


def add(ip, a, b):
    return SV('int', a.t + b.t)


def loop_of(sym, copy):
    def loop(ip, args, kwargs):
        if sym['shape'] in ('while', 'for', 'while ifs', 'for ifs'):
            return copy.top
        if sym['shape'] == 'if':
            # The cases with loop and ifs cover this
            raise PathEnd()
        return None
    return Model(loop)


def run_loop_with(ip, contract):
    """parse_script(text) with a contract at its line loop"""
    ip.loop_contracts['parse_script'] = contract
    return inline(ip, parser.parse_script, text(ip, 'script_text'), ip.input('int', 'start_line_number'))


def step_contract(sym):
    def contract(ip, frame, node, spc):
        copy, state = spec_state(ip, sym)
        line = inline(ip, line_spec.read_line, state, sym['part']).unwrap()
        number = add(ip, sym['start'], sym['first_ix'] if sym['continued'] else sym['part_ix'])
        error = None
        if line is not None:
            # Lines do not contain a line feed
            ip.assume(z3.Not(z3.Contains(str_term(ip.unwrap(line)), z3.StringVal('\n'))))
            error = inline(ip, line_spec.step, state, line, number, loop_of(sym, copy)).unwrap()
        for content in copy.guarded:
            content.guard = False
        forget_assigned(frame, node)
        _, values = code_locals(ip, sym)
        for name, value in values.items():
            frame.locals[name] = value
        if not sym['continued']:
            frame.locals.pop('ix_line')
        frame.locals['start_line_number'] = sym['start']
        interp.assign(ip, frame, node.target, (sym['part_ix'], sym['part']))
        depth = ip.depth
        try:
            signal = interp.block(ip, frame, node.body)
        except PyExc as exc:
            ip.depth = depth
            ip.prove(error is not None, f'the line is accepted (raises {exc.obj.cls.__name__} {exc.obj.attrs.get("error")!r})')
            if error is not None:
                same_error(ip, exc.obj, error, 'the error')
            raise PathEnd() from exc
        ip.prove(signal is None or signal[0] == 'continue', 'the loop goes on')
        ip.prove(error is None, f'the line is an error ({error[0] if error else None})')
        if error is None:
            compare_states(ip, frame, state)
            if ip.truth(get(ip, state, 'lines')):
                prove_same(ip, add(ip, sym['start'], frame.locals['ix_line']), number, 'the line number of the continued line')
        raise PathEnd()
    return contract


SHAPES = ('empty', 'if', 'while', 'for', 'ifs', 'while ifs', 'for ifs', 'include', 'statement', 'first')
PROPS = ['C01', 'C06', 'C07', 'C10']


def step_obligation(scope, shape, continued):
    name = f'parse_script.line ({scope}, {shape}{", continued" if continued else ""})'

    @obligation(name, PROPS, ['parser.parse_script', 'parser._parse_line_expression'], limit_s=200)
    def _(ip):
        """The effect of a line on the parser state"""
        contracts(ip)
        sym = symbols(ip, scope, shape, continued)
        run_loop_with(ip, step_contract(sym))
        raise PathEnd()


for _scope in ('script', 'function'):
    for _shape in SHAPES:
        for _continued in (False, True):
            step_obligation(_scope, _shape, _continued)


#
# The beginning and the end
#


@obligation('parse_script.start', PROPS, ['parser.parse_script'])
def _(ip):
    """The state before the first line; the lines are those of the text"""
    contracts(ip)

    def contract(ip2, frame, node, spc):
        state = SDict(ip2, None, [('lines', SList(ip2, Lit([]))), ('script', SList(ip2, Lit([]))), ('function', None), ('depth', 0), ('function_line', None),
                                  ('blocks', SList(ip2, Lit([]))), ('count', 0)])
        compare_states(ip2, frame, state)
        lines = SV('str', script_text)
        split = ip2.call(parser._R_SCRIPT_LINE_SPLIT.split, [lines])  # pylint: disable=protected-access
        k = ip2.fresh('int', 'k').t
        ip2.prove(ival(spc.n) == ival(split.content.n), 'the number of lines')
        ip2.assume(z3.And(k >= 0, k < ival(spc.n)))
        prove_same(ip2, spc.at(ip2, k), (SV('int', k), split.content.at(ip2, k)), 'a line, with its index')
        raise PathEnd()

    ip.loop_contracts['parse_script'] = contract
    sv = text(ip, 'script_text')
    script_text = sv.t
    inline(ip, parser.parse_script, sv, ip.input('int', 'start_line_number'))
    raise PathEnd()


END_SHAPES = ('empty', 'outermost', 'if', 'while', 'for', 'outer if', 'outer while', 'outer for')


def end_obligation(scope, shape, continued):
    @obligation(f'parse_script.end ({scope}, {shape}{", continued" if continued else ""})', PROPS, ['parser.parse_script'])
    def _(ip):
        """The end of the text, from any parser state"""
        contracts(ip)
        sym = symbols(ip, scope, shape, continued)

        def contract(ip2, frame, node, spc):
            forget_assigned(frame, node)
            _, values = code_locals(ip2, sym)
            for name, value in values.items():
                frame.locals[name] = value
            frame.locals['start_line_number'] = sym['start']
            return None

        result = run_loop_with(ip, contract)
        _, state = spec_state(ip, sym)
        error = inline(ip, line_spec.end, state, add(ip, sym['start'], sym['first_ix'] if continued else sym['part_ix'])).unwrap()
        ip.prove(result.ok == (error is None), f'an error at the end ({error[0] if error else None})')
        if not result.ok:
            if error is not None:
                same_error(ip, result.exc, error, 'the error')
            return
        script = SDict(ip, None, [('statements', get(ip, state, 'script'))])
        prove_same(ip, result.value, script, 'the script')


for _scope in ('script', 'function'):
    for _shape in END_SHAPES:
        if _scope == 'function' and _shape == 'empty' or _scope == 'script' and _shape.startswith('outer'):
            continue
        for _continued in (False, True):
            end_obligation(_scope, _shape, _continued)


@obligation('parse_script.texts', ['C06', 'C10'], ['parser.parse_script'])
def _(ip):
    """A sequence of texts: the lines of every text are appended to the lines"""
    contracts(ip)
    split = parser._R_SCRIPT_LINE_SPLIT.split  # pylint: disable=protected-access

    def contract(ip2, frame, node, spc):
        if 'lines' not in frame.locals:
            raise Unsupported('parse_script has no variable lines')
        prove_same_content(ip2, frame.locals['lines'].content, Lit([]), 'no lines at first')
        before = Base(ip2, ip2.fresh('content', 'lines').t, frozenset(['str']))
        forget_assigned(frame, node)
        frame.locals['lines'] = SList(ip2, before)
        k = ip2.fresh('int', 'k').t
        ip2.assume(z3.And(k >= 0, k < ival(spc.n)))
        part = spc.at(ip2, k)
        interp.assign(ip2, frame, node.target, part)
        signal = interp.block(ip2, frame, node.body)
        ip2.prove(signal is None or signal[0] == 'continue', 'the loop goes on')
        prove_same_content(ip2, frame.locals['lines'].content, content_cat(before, ip2.call(split, [part]).content), 'the lines of the text are appended')
        raise PathEnd()

    ip.loop_contracts['parse_script'] = contract
    texts = SList(ip, Base(ip, ip.fresh('content', 'texts').t, frozenset(['str'])))
    inline(ip, parser.parse_script, texts, ip.input('int', 'start_line_number'))
    raise PathEnd()


#
# Labels: the invariant of the specification's steps (C07)
#

RESERVED = '__bareScript'


def label_text(ip, kind, index):
    from pyvc.models import to_text
    return z3.Concat(z3.StringVal(f'{RESERVED}{kind}'), str_term(to_text(ip, SV('int', index))))


class Ghost:
    """What the invariant says about one label of the reserved form, in the scope of the open statement list"""

    def __init__(self, ip, sym, ell, of_base):
        self.ip, self.sym, self.ell, self.of_base = ip, sym, ell, of_base
        self.rest_owns, self.rest_pending, self.rest_open, self.rest_sure = (z3.Bool(f'rest_{name}') for name in ('owns', 'pending', 'open', 'sure'))
        self.rest_later = z3.Bool('rest_later')

    def is_it(self, label):
        return self.ip.to_v(label) == self.ip.to_v(SV('str', self.ell))

    def count(self, out, kind):
        """The number of label statements, or of jumps, of the label among the statements"""
        total = z3.IntVal(0)
        for piece, item in pieces(out.content):
            if piece == 'base':
                total = total + self.of_base(kind)(item)
            elif piece == 'item':
                items = item.concrete()
                if items is None or len(items) != 1:
                    raise Unsupported('form of a statement')
                if kind == 'label' and 'label' in items:
                    total = total + z3.If(self.is_it(items['label']), 1, 0)
                if kind == 'jump' and 'jump' in items:
                    total = total + z3.If(self.is_it(get(self.ip, items['jump'], 'label')), 1, 0)
        return total

    def block(self, block):
        """(owns, pending, open, sure, later) of an explicit block: the label is one of its labels; it will be defined at its end; it is defined and will be a jump's target at
        the end; it is pending and a target already; it may be defined at its end"""
        kind = get(self.ip, block, 'kind')
        done = self.is_it(get(self.ip, block, 'done'))
        if kind == 'if':
            has_else = self.ip.truth(get(self.ip, block, 'else'))
            jump = self.is_it(get(self.ip, get(self.ip, block, 'jump'), 'label'))
            pending = done if has_else else z3.Or(done, jump)
            return z3.Or(done, jump), pending, z3.BoolVal(False), (done if has_else else jump), pending
        loop, again = self.is_it(get(self.ip, block, 'loop')), self.is_it(get(self.ip, block, 'continue'))
        continued = self.ip.truth(get(self.ip, block, 'continued'))
        pending = z3.Or(done, z3.And(again, z3.Not(loop))) if continued else done
        return z3.Or(done, loop, again), pending, loop, pending, z3.Or(done, z3.And(again, z3.Not(loop)))

    def blocks(self, items, rest):
        facts = [self.block(item) for item in items]
        if rest:
            facts.append((self.rest_owns, self.rest_pending, self.rest_open, self.rest_sure, self.rest_later))
        return facts

    def invariant(self, out, facts, index, count):
        labels, jumps = self.count(out, 'label'), self.count(out, 'jump')
        pending, opened, sure, later = (z3.Or([fact[ix] for fact in facts] + [z3.BoolVal(False)]) for ix in (1, 2, 3, 4))
        apart = [z3.Not(z3.And(a[0], b[0])) for ix, a in enumerate(facts) for b in facts[:ix]]
        return [
            ('counts', z3.And(labels >= 0, jumps >= 0)),
            ('a label is defined once', labels <= 1),
            ('a label that a block may define is not defined', z3.Implies(later, labels == 0)),
            ('the target of a jump is defined or will be', z3.Implies(jumps >= 1, z3.Or(labels == 1, pending))),
            ('a defined label is a target or will be', z3.Implies(labels == 1, z3.Or(jumps >= 1, opened))),
            ('a pending label is a target', z3.Implies(sure, jumps >= 1)),
            ('an open loop label is defined', z3.Implies(opened, labels == 1)),
            ('blocks have their own labels', z3.And(*apart) if apart else z3.BoolVal(True)),
            ('labels of later blocks do not occur', z3.Implies(index >= count, z3.And(labels == 0, jumps == 0, z3.Not(z3.Or([fact[0] for fact in facts] + [z3.BoolVal(False)])))))
        ]


def label_symbols(ip, sym):
    """The labels of the open block have the reserved form with an index below the count"""
    sym['block index'], sym['elif index'] = ip.input('int', 'block_index'), ip.input('int', 'elif_index')
    n, m = sym['block index'].t, sym['elif index'].t
    ip.assume(z3.And(0 <= n, n <= m, m < sym['count'].t))
    for kind in ('if', 'while', 'for'):
        sym[kind, 'done'] = SV('str', label_text(ip, 'Done', n))
        if kind == 'if':
            sym[kind, 'jump'] = SV('str', label_text(ip, 'If', m))
        else:
            no_test = sym[kind, 'continue'] is sym[kind, 'loop']
            sym[kind, 'loop'] = SV('str', label_text(ip, 'Loop', n))
            sym[kind, 'continue'] = sym[kind, 'loop'] if no_test else SV('str', label_text(ip, 'Continue', n))


def label_obligation(scope, shape, kind):
    @obligation(f'labels.line ({scope}, {shape}, {kind})', ['C07'], ['specs/line_spec.py: step (lemma over the step that parse_script.line establishes)'], limit_s=120)
    def _(ip):
        """Lemma: a line keeps the invariant of the labels (structured lines and labels outside the reserved names)"""
        contracts(ip)
        sym = symbols(ip, scope, shape, False)
        label_symbols(ip, sym)
        index = ip.input('int', 'index').t
        ip.assume(index >= 0)
        ell = label_text(ip, kind, index)

        def of_base(what):
            return func(f'count_{what}', ['content'], 'int')

        # str() of integers is injective
        numbers = [index, sym['count'].t] + [sym[name].t for name in ('block index', 'elif index')]
        of_int = func('text_of_int', ['int'], 'str')
        for ix, a in enumerate(numbers):
            for b in numbers[:ix]:
                ip.assume(z3.Implies(of_int(a) == of_int(b), a == b))

        ghost = Ghost(ip, sym, ell, of_base)
        copy, state = spec_state(ip, sym)
        rest = shape != 'empty'
        tops = [copy.top] if copy.top is not None else []
        for name, fact in (('rest', z3.Implies(ghost.rest_pending, ghost.rest_owns)), ('rest', z3.Implies(ghost.rest_open, ghost.rest_owns)),
                           ('rest', z3.Implies(ghost.rest_sure, ghost.rest_pending)), ('rest', z3.Implies(ghost.rest_pending, ghost.rest_later)),
                           ('rest', z3.Implies(ghost.rest_later, ghost.rest_owns))):
            ip.assume(fact)
        before = ghost.invariant(copy.out, ghost.blocks(tops, rest), index, sym['count'].t)
        for _, fact in before:
            ip.assume(fact)
        for what in ('label', 'jump'):
            for content in copy.guarded:
                ip.assume(of_base(what)(content.t) >= 0)
        if shape == 'if' and not sym['flag']:
            # The jump of the if is the only one to its label so far
            ip.assume(z3.Implies(ghost.is_it(sym['if', 'jump']), z3.And(*[of_base('jump')(content.t) == 0 for content in copy.guarded])))
        line = text(ip, 'line')
        for pattern in (line_spec.LABEL, line_spec.JUMP):
            name = func(f'group:{pattern.groupindex["name"]}:match:{pattern.pattern}:{pattern.flags}', ['str'], 'str')(line.t)
            ip.assume(z3.Not(z3.PrefixOf(z3.StringVal(RESERVED), name)))
        out = copy.out
        function = state.lookup(ip, 'function')[1]
        error = inline(ip, line_spec.step, state, line, SV('int', sym['start'].t), loop_of(sym, copy)).unwrap()
        if error is not None:
            raise PathEnd()
        blocks = get(ip, state, 'blocks')
        items = [item for piece, item in pieces(blocks.content) if piece == 'item']
        new_function = get(ip, state, 'function')
        if function is None and new_function is not None:
            # A new scope: it has no statements, and its blocks are those to come
            prove_same_content(ip, get(ip, get(ip, new_function, 'function'), 'statements').content, Lit([]), 'the new scope is empty')
            prove_same(ip, get(ip, state, 'depth'), SV('int', ival(blocks.content.n)), 'the blocks of the new scope')
        count = ip.int_of(get(ip, state, 'count'))
        ip.prove(ival(count) >= sym['count'].t, 'the count grows')
        for what, claim in ghost.invariant(out, ghost.blocks(items, rest), index, ival(count)):
            ip.prove(claim, what)
        if items and get(ip, items[-1], 'kind') == 'if' and not ip.truth(get(ip, items[-1], 'else')):
            jump = get(ip, items[-1], 'jump')
            others = [(piece, item) for piece, item in pieces(out.content) if not (piece == 'item' and any(value is jump for _, value in item.writes))]
            ip.prove(len(others) == len(pieces(out.content)) - 1, 'the jump of the if is a statement')
            total = z3.IntVal(0)
            for piece, item in others:
                if piece == 'base':
                    total = total + of_base('jump')(item)
                elif 'jump' in item.concrete():
                    total = total + z3.If(ghost.is_it(get(ip, item.concrete()['jump'], 'label')), 1, 0)
            ip.prove(z3.Implies(ghost.is_it(get(ip, jump, 'label')), total == 0), 'the jump of the if is the only one to its label')


for _scope in ('script', 'function'):
    for _shape in ('empty', 'if', 'while', 'for', 'while ifs', 'for ifs'):
        for _kind in ('If', 'Done', 'Loop', 'Continue'):
            label_obligation(_scope, _shape, _kind)
