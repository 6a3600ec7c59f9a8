"""Verification of BareScript functions: the parsed, lowered model of a shipped script (what execute_script runs) against a contract.

The statements are executed symbolically by the jump-level semantics that the execute.* obligations establish for execute_script, and the library calls by the contracts that
the library.* obligations establish. Loops are cut at the labels that backward jumps target; the invariant at a cut is the largest inductive subset of a set of candidate
formulas over the variables in scope (Houdini): every candidate that is kept is proved at every arrival. Arrays of lines are z3 sequences; numbers are mathematical integers.
"""

import z3

from pyvc.engine import Unsupported

LINE = z3.DeclareSort('Line')
PART = z3.DeclareSort('Part')
LINES = z3.SeqSort(LINE)
PARTS = z3.SeqSort(PART)
SPLIT = z3.Function('regex_split', PART, LINES)              # regexSplit(diffRegexLineSplit, text)
FOLD = z3.Function('split_all', PARTS, z3.IntSort(), LINES)  # the lines of the first k texts
EMPTY = z3.Empty(LINES)


class Num:
    def __init__(self, t):
        self.t = t


class Flag:
    """A boolean or null, known by its truth"""

    def __init__(self, t):
        self.t = t


class Null:
    pass


class Str:
    def __init__(self, s):
        self.s = s


class Line:
    def __init__(self, t):
        self.t = t


class Text:
    """A string of the input"""

    def __init__(self, t):
        self.t = t


class Param:
    """A parameter: a text, or an array of texts"""

    def __init__(self, name):
        self.name = name
        self.is_array = z3.Bool(f'{name}_is_array')
        self.text = z3.Const(f'{name}_text', PART)
        self.parts = z3.Const(f'{name}_parts', PARTS)
        self.all_lines = z3.Const(f'{name}_lines', LINES)

    def lines(self):
        return self.all_lines

    def definition(self):
        return self.all_lines == z3.If(self.is_array, FOLD(self.parts, z3.Length(self.parts)), SPLIT(self.text))


class TypeOf:
    def __init__(self, param):
        self.param = param


class Arr:
    def __init__(self, ref):
        self.ref = ref


class Obj:
    def __init__(self, fields):
        self.fields = fields


class Opaque:
    def __init__(self, name):
        self.name = name


class Diffs:
    """The content of an array of difference blocks: what its blocks reconstruct"""

    def __init__(self, left, right, ok, changes):
        self.left, self.right, self.ok, self.changes = left, right, ok, changes


class State:
    def __init__(self, pc, vars_, heap, frozen, path):
        self.pc, self.vars, self.heap, self.frozen, self.path = pc, vars_, heap, frozen, path

    def fork(self, cond=None):
        return State(self.pc, dict(self.vars), dict(self.heap), set(self.frozen), self.path + ([cond] if cond is not None else []))


def feasible(path):
    solver = z3.Solver()
    solver.set('timeout', 500)
    solver.add(*path)
    return solver.check() != z3.unsat


class Machine:
    def __init__(self, statements, params, globals_):
        self.statements = statements
        self.globals = globals_
        self.params = {param.name: param for param in params}
        self.labels = {}
        for ix, statement in enumerate(statements):
            if 'label' in statement:
                self.labels.setdefault(statement['label'], ix)
        self.cuts = sorted({self.labels[st['jump']['label']] for ix, st in enumerate(statements) if 'jump' in st and self.labels.get(st['jump']['label'], ix + 1) <= ix})
        self.fresh_count = 0
        self.refs = 0

    def fresh(self, sort, name):
        self.fresh_count += 1
        return z3.Const(f'{name}!{self.fresh_count}', sort)

    # --- expressions: a generator of (state, value) for every way the evaluation goes

    def eval(self, state, expr):
        (kind, arg), = expr.items()
        if kind == 'number':
            if arg != int(arg):
                raise Unsupported('fractional number')
            yield state, Num(z3.IntVal(int(arg)))
        elif kind == 'string':
            yield state, Str(arg)
        elif kind == 'group':
            yield from self.eval(state, arg)
        elif kind == 'variable':
            yield state, self.variable(state, arg)
        elif kind == 'unary' and arg['op'] == '!':
            for st, value in self.eval(state, arg['expr']):
                yield st, Flag(z3.Not(self.truth(st, value)))
        elif kind == 'binary':
            yield from self.binary(state, arg)
        elif kind == 'function':
            yield from self.function(state, arg)
        else:
            raise Unsupported(f'expression {kind}')

    def variable(self, state, name):
        if name in ('true', 'false', 'null'):
            return Null() if name == 'null' else Flag(z3.BoolVal(name == 'true'))
        if name in state.vars:
            value = state.vars[name]
            if value is None:
                raise Unsupported(f'variable {name} is unknown here')
            return value
        if name in self.globals:
            return Opaque(name)
        # Neither a local nor a global
        return Null()

    def truth(self, state, value):
        if isinstance(value, Flag):
            return value.t
        if isinstance(value, Null):
            return z3.BoolVal(False)
        if isinstance(value, Num):
            return value.t != 0
        if isinstance(value, Str):
            return z3.BoolVal(value.s != '')
        if isinstance(value, Arr):
            return self.length(state, value) > 0
        if isinstance(value, (Obj, Opaque)):
            return z3.BoolVal(True)
        raise Unsupported('truth of a text')

    def binary(self, state, expr):
        op = expr['op']
        if op in ('&&', '||'):
            for st, left in self.eval(state, expr['left']):
                cond = self.truth(st, left)
                decided = st.fork(z3.Not(cond) if op == '&&' else cond)
                if feasible(decided.path):
                    yield decided, left
                other = st.fork(cond if op == '&&' else z3.Not(cond))
                if feasible(other.path):
                    yield from self.eval(other, expr['right'])
            return
        for st, left in self.eval(state, expr['left']):
            for st2, right in self.eval(st, expr['right']):
                yield st2, self.operator(op, left, right)

    def operator(self, op, left, right):
        if isinstance(left, Num) and isinstance(right, Num):
            a, b = left.t, right.t
            if op in ('+', '-'):
                return Num(z3.simplify(a + b if op == '+' else a - b))
            if op in ('<', '<=', '>', '>=', '==', '!='):
                return Flag({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op])
        if op in ('==', '!='):
            if isinstance(left, TypeOf) and isinstance(right, Str):
                same = left.param.is_array if right.s == 'array' else (z3.Not(left.param.is_array) if right.s == 'string' else z3.BoolVal(False))
            elif isinstance(left, Line) and isinstance(right, Line):
                same = left.t == right.t
            elif isinstance(left, (Line, Null)) and isinstance(right, (Line, Null)):
                same = z3.BoolVal(isinstance(left, Null) and isinstance(right, Null))
            else:
                raise Unsupported(f'comparison of {type(left).__name__} and {type(right).__name__}')
            return Flag(same if op == '==' else z3.Not(same))
        raise Unsupported(f'operator {op}')

    # --- arrays

    def content(self, state, value):
        if isinstance(value, Param):
            # Its contract applies to arrays only
            if feasible(state.path + [z3.Not(value.is_array)]):
                raise Unsupported('array function of a text')
            return value.parts
        if not isinstance(value, Arr):
            raise Unsupported('array function of another value')
        content = state.heap[value.ref]
        return EMPTY if isinstance(content, str) else content

    def length(self, state, value):
        content = self.content(state, value)
        if isinstance(content, Diffs):
            raise Unsupported('length of the blocks')
        return z3.Length(content)

    def function(self, state, expr):
        name = expr['name']
        states = [(state, [])]
        for arg in expr.get('args', []):
            states = [(st2, values + [value]) for st, values in states for st2, value in self.eval(st, arg)]
        for st, values in states:
            handler = getattr(self, f'fn_{name}', None)
            if handler is None or name in st.vars or name in self.globals:
                raise Unsupported(f'call of {name}')
            yield from handler(st, *values)

    def new(self, state, content):
        self.refs += 1
        state.heap[self.refs] = content
        return Arr(self.refs)

    def fn_systemType(self, state, value):
        if isinstance(value, Param):
            yield state, TypeOf(value)
        else:
            raise Unsupported('systemType')

    def fn_arrayNew(self, state):
        st = state.fork()
        yield st, self.new(st, 'empty')

    def fn_arrayLength(self, state, array):
        yield state, Num(self.length(state, array))

    def fn_arrayGet(self, state, array, index):
        content = self.content(state, array)
        if isinstance(content, Diffs) or not isinstance(index, Num):
            raise Unsupported('arrayGet')
        inside = z3.And(index.t >= 0, index.t < z3.Length(content))
        outside = state.fork(z3.Not(inside))
        if feasible(outside.path):
            yield outside, Null()
        st = state.fork(inside)
        if feasible(st.path):
            st.path.append(prefix_fact(content, index.t))
            if content.sort() == PARTS:
                st.path.append(fold_fact(content, index.t))
                yield st, Text(content[index.t])
            else:
                yield st, Line(content[index.t])

    def fn_arraySlice(self, state, array, start, end=None):
        content = self.content(state, array)
        if isinstance(content, Diffs) or content.sort() != LINES:
            raise Unsupported('arraySlice')
        n = z3.Length(content)
        lo, hi = start.t, end.t if end is not None else n
        inside = z3.And(lo >= 0, lo <= n, hi >= 0, hi <= n)
        if feasible(state.path + [z3.Not(inside)]):
            raise Unsupported('arraySlice out of range')
        st = state.fork(slice_fact(content, lo, hi))
        yield st, self.new(st, z3.If(lo <= hi, z3.SubSeq(content, lo, hi - lo), EMPTY))

    def fn_arrayPush(self, state, array, *values):
        st = state.fork()
        if not isinstance(array, Arr) or array.ref in st.frozen:
            raise Unsupported('arrayPush')
        for value in values:
            content = st.heap[array.ref]
            if isinstance(value, Line):
                if isinstance(content, Diffs):
                    raise Unsupported('a line among the blocks')
                st.heap[array.ref] = z3.Concat(EMPTY if isinstance(content, str) else content, z3.Unit(value.t))
            elif isinstance(value, Obj):
                if isinstance(content, str):
                    content = Diffs(EMPTY, EMPTY, z3.BoolVal(True), z3.BoolVal(False))
                if not isinstance(content, Diffs):
                    raise Unsupported('a block among the lines')
                st.heap[array.ref] = self.add_block(st, content, value)
            else:
                raise Unsupported('arrayPush value')
        yield st, array

    def add_block(self, state, diffs, block):
        kind, lines = block.fields.get('type'), block.fields.get('lines')
        if not isinstance(kind, Str) or not isinstance(lines, Arr):
            raise Unsupported('form of a block')
        state.frozen.add(lines.ref)
        seq = self.content(state, lines)
        if isinstance(seq, Diffs):
            raise Unsupported('blocks as lines')
        ok = kind.s in ('Identical', 'Add', 'Remove') and set(block.fields) == {'type', 'lines'}
        return Diffs(z3.Concat(diffs.left, seq) if kind.s in ('Identical', 'Remove') else diffs.left,
                     z3.Concat(diffs.right, seq) if kind.s in ('Identical', 'Add') else diffs.right,
                     z3.And(diffs.ok, z3.BoolVal(ok), z3.Length(seq) > 0), z3.Or(diffs.changes, z3.BoolVal(kind.s != 'Identical')))

    def fn_arrayExtend(self, state, array, other):
        st = state.fork()
        if not isinstance(array, Arr) or not isinstance(other, Arr) or array.ref in st.frozen:
            raise Unsupported('arrayExtend')
        content = st.heap[array.ref]
        added = self.content(st, other)
        if isinstance(content, Diffs) or isinstance(added, Diffs):
            raise Unsupported('arrayExtend of blocks')
        st.heap[array.ref] = z3.Concat(EMPTY if isinstance(content, str) else content, added)
        yield st, array

    def fn_objectNew(self, state, *values):
        if len(values) % 2 or not all(isinstance(key, Str) for key in values[::2]):
            raise Unsupported('objectNew')
        yield state, Obj({key.s: value for key, value in zip(values[::2], values[1::2])})

    def fn_regexSplit(self, state, regex, text):
        if not isinstance(regex, Opaque) or regex.name != 'diffRegexLineSplit':
            raise Unsupported('regexSplit')
        st = state.fork()
        if isinstance(text, Param):
            if feasible(state.path + [text.is_array]):
                raise Unsupported('regexSplit of an array')
            yield st, self.new(st, SPLIT(text.text))
        elif isinstance(text, Text):
            yield st, self.new(st, SPLIT(text.t))
        else:
            raise Unsupported('regexSplit of another value')

    # --- statements

    def run(self, state, first=True):
        """Execute to the next cut or the end of the function: yields (where, state, value)"""
        work = [(state, first)]
        steps = 0
        while work:
            st, at_start = work.pop()
            while True:
                steps += 1
                if steps > 20000:
                    raise Unsupported('too many paths')
                if st.pc >= len(self.statements):
                    yield 'return', st, Null()
                    break
                if st.pc in self.cuts and not at_start:
                    yield st.pc, st, None
                    break
                at_start = False
                (kind, arg), = self.statements[st.pc].items()
                if kind == 'label':
                    st = st.fork()
                    st.pc += 1
                elif kind == 'jump':
                    target = self.labels.get(arg['label'])
                    if target is None:
                        raise Unsupported('unknown label')
                    if 'expr' not in arg:
                        st = st.fork()
                        st.pc = target
                        continue
                    for st2, value in self.eval(st, arg['expr']):
                        cond = self.truth(st2, value)
                        for taken, where in ((cond, target), (z3.Not(cond), st.pc + 1)):
                            st3 = st2.fork(taken)
                            st3.pc = where
                            if feasible(st3.path):
                                work.append((st3, False))
                    break
                elif kind == 'expr':
                    for st2, value in self.eval(st, arg['expr']):
                        st3 = st2.fork()
                        if 'name' in arg:
                            st3.vars[arg['name']] = value
                        st3.pc = st.pc + 1
                        work.append((st3, False))
                    break
                elif kind == 'return':
                    for st2, value in self.eval(st, arg['expr']) if 'expr' in arg else [(st, Null())]:
                        yield 'return', st2, value
                    break
                else:
                    raise Unsupported(f'statement {kind}')


def prefix_fact(seq, ix):
    """A fact of sequences (bare.prefix_fact): one more element"""
    return z3.Implies(z3.And(0 <= ix, ix < z3.Length(seq)), z3.SubSeq(seq, 0, ix + 1) == z3.Concat(z3.SubSeq(seq, 0, ix), z3.Unit(seq[ix])))


def slice_fact(seq, lo, hi):
    """A fact of sequences (bare.slice_fact): a prefix and the slice after it"""
    return z3.Implies(z3.And(0 <= lo, lo <= hi, hi <= z3.Length(seq)),
                      z3.And(z3.Concat(z3.SubSeq(seq, 0, lo), z3.SubSeq(seq, lo, hi - lo)) == z3.SubSeq(seq, 0, hi), z3.SubSeq(seq, 0, z3.Length(seq)) == seq,
                             z3.Length(z3.SubSeq(seq, lo, hi - lo)) == hi - lo))


def fold_fact(parts, ix):
    """The definition of FOLD"""
    return z3.And(FOLD(parts, 0) == EMPTY, z3.Implies(ix >= 0, FOLD(parts, ix + 1) == z3.Concat(FOLD(parts, ix), SPLIT(parts[ix]))))


#
# Invariants at the cuts
#


class Cut:
    """The shape of the state at a cut, and the candidates that are left"""

    def __init__(self, machine, pc, state):
        self.machine, self.pc = machine, pc
        self.shape = shape_of(state)
        self.alive = None
        self.build()

    def join(self, state):
        """True if the shape becomes weaker"""
        other = shape_of(state)
        joined = {}
        for name, kind in self.shape.items():
            kind2 = other.get(name)
            joined[name] = kind if kind == kind2 else join_kinds(kind, kind2)
        joined = {name: kind for name, kind in joined.items() if kind is not None}
        if joined != self.shape:
            self.shape = joined
            self.build()
            return True
        return False

    def build(self):
        machine = self.machine
        vars_, heap = {}, {}
        refs = {}
        for name in sorted(self.shape):
            kind = self.shape[name]
            if kind[0] == 'num':
                vars_[name] = Num(machine.fresh(z3.IntSort(), name))
            elif kind[0] == 'flag':
                vars_[name] = Flag(machine.fresh(z3.BoolSort(), name))
            elif kind[0] == 'null':
                vars_[name] = Null()
            elif kind[0] == 'line':
                vars_[name] = Line(machine.fresh(LINE, name))
            elif kind[0] == 'text':
                vars_[name] = Text(machine.fresh(PART, name))
            elif kind[0] == 'param':
                vars_[name] = machine.params[kind[1]]
            elif kind[0] == 'arr':
                if kind[1] not in refs:
                    machine.refs += 1
                    refs[kind[1]] = machine.refs
                    if kind[2] == 'lines':
                        heap[machine.refs] = machine.fresh(LINES, name)
                    elif kind[2] == 'empty':
                        heap[machine.refs] = 'empty'
                    else:
                        heap[machine.refs] = Diffs(machine.fresh(LINES, f'{name}_left'), machine.fresh(LINES, f'{name}_right'), machine.fresh(z3.BoolSort(), f'{name}_ok'),
                                                   machine.fresh(z3.BoolSort(), f'{name}_changes'))
                vars_[name] = Arr(refs[kind[1]])
        for name in machine.all_names - set(vars_):
            vars_[name] = None
        frozen = {refs[kind[1]] for kind in self.shape.values() if kind[0] == 'arr' and kind[3]}
        self.state = State(self.pc, vars_, heap, frozen, [])
        self.candidates = candidates(machine, self.shape)
        self.alive = list(range(len(self.candidates)))

    def formulas(self, state):
        view = View(self.machine, state)
        return [fn(view) for fn in (self.candidates[ix] for ix in self.alive)]


def shape_of(state):
    """{variable: kind}, with the alias partition of the arrays"""
    first = {}
    shape = {}
    for name in sorted(state.vars):
        value = state.vars[name]
        if isinstance(value, Num):
            shape[name] = ('num',)
        elif isinstance(value, Flag):
            shape[name] = ('flag',)
        elif isinstance(value, Null):
            shape[name] = ('null',)
        elif isinstance(value, Line):
            shape[name] = ('line',)
        elif isinstance(value, Text):
            shape[name] = ('text',)
        elif isinstance(value, Param):
            shape[name] = ('param', value.name)
        elif isinstance(value, Arr):
            content = state.heap[value.ref]
            first.setdefault(value.ref, name)
            kind = 'empty' if isinstance(content, str) else ('diffs' if isinstance(content, Diffs) else 'lines')
            shape[name] = ('arr', first[value.ref], kind, value.ref in state.frozen)
    return shape


def join_kinds(a, b):
    if a is None or b is None:
        return None
    if {a[0], b[0]} == {'null', 'flag'}:
        return ('flag',)
    if a[0] == b[0] == 'arr' and a[1] == b[1]:
        kinds = {a[2], b[2]}
        kind = a[2] if len(kinds) == 1 else ('lines' if kinds == {'empty', 'lines'} else ('diffs' if kinds == {'empty', 'diffs'} else None))
        return ('arr', a[1], kind, a[3] or b[3]) if kind is not None else None
    return None


class View:
    """The terms of a state that candidates speak about"""

    def __init__(self, machine, state):
        self.machine, self.state = machine, state

    def num(self, name):
        return self.state.vars[name].t

    def seq(self, name):
        content = self.state.heap[self.state.vars[name].ref]
        return EMPTY if isinstance(content, str) else content

    def diffs(self, name):
        content = self.state.heap[self.state.vars[name].ref]
        return Diffs(EMPTY, EMPTY, z3.BoolVal(True), z3.BoolVal(False)) if isinstance(content, str) else content

    def flag(self, name):
        value = self.state.vars[name]
        return z3.BoolVal(False) if isinstance(value, Null) else value.t


def candidates(machine, shape):
    """The candidate formulas, as functions of a view"""
    nums = [name for name, kind in shape.items() if kind[0] == 'num']
    flags = [name for name, kind in shape.items() if kind[0] == 'flag']
    seqs = [name for name, kind in shape.items() if kind[0] == 'arr' and kind[2] in ('lines', 'empty')]
    diffs = [name for name, kind in shape.items() if kind[0] == 'arr' and kind[2] in ('diffs', 'empty')]
    left, right = machine.params['left'], machine.params['right']
    same = left.lines() == right.lines()
    result = []
    add = result.append
    for a in nums:
        add(lambda v, a=a: v.num(a) >= 0)
        for b in nums:
            if a != b:
                add(lambda v, a=a, b=b: v.num(a) <= v.num(b))
                add(lambda v, a=a, b=b: v.num(a) < v.num(b))
        for b in nums:
            if a < b:
                add(lambda v, a=a, b=b: z3.Implies(same, v.num(a) == v.num(b)))
        for s in seqs:
            add(lambda v, a=a, s=s: v.num(a) == z3.Length(v.seq(s)))
        for param in (left, right):
            add(lambda v, a=a, p=param: z3.And(p.is_array, v.num(a) == z3.Length(p.parts)))
            for s in seqs:
                add(lambda v, a=a, s=s, p=param: v.seq(s) == FOLD(p.parts, v.num(a)))
    for a in nums:
        for b in nums:
            add(lambda v, a=a, b=b: z3.And(v.num(a) >= 0, v.num(a) < z3.Length(left.lines()), v.num(b) >= 0, v.num(b) < z3.Length(right.lines()),
                                           left.lines()[v.num(a)] == right.lines()[v.num(b)]))
    for f in flags:
        add(lambda v, f=f: z3.Not(v.flag(f)))
    add(lambda v: left.is_array)
    add(lambda v: right.is_array)
    add(lambda v: z3.Not(same))
    for s in seqs:
        add(lambda v, s=s: z3.Length(v.seq(s)) > 0)
        for param in (left, right):
            add(lambda v, s=s, p=param: v.seq(s) == p.lines())
    for d in diffs:
        add(lambda v, d=d: v.diffs(d).ok)
        add(lambda v, d=d: z3.Implies(same, z3.Not(v.diffs(d).changes)))
        for a in nums:
            for side, param in (('left', left), ('right', right)):
                add(lambda v, d=d, a=a, side=side, p=param: getattr(v.diffs(d), side) == z3.SubSeq(p.lines(), 0, v.num(a)))
                for s in seqs:
                    add(lambda v, d=d, a=a, s=s, side=side, p=param: z3.Concat(getattr(v.diffs(d), side), v.seq(s)) == z3.SubSeq(p.lines(), 0, v.num(a)))
    return result


def implied(path, formulas, ms):
    """The indexes of the formulas that the path does not imply (as far as z3 can tell)"""
    failing = []
    todo = list(range(len(formulas)))
    while todo:
        solver = z3.Solver()
        solver.set('timeout', ms)
        solver.add(*path)
        solver.add(z3.Not(z3.And(*[formulas[ix] for ix in todo])))
        result = solver.check()
        if result == z3.unsat:
            return failing
        bad = []
        if result == z3.sat:
            model = solver.model()
            bad = [ix for ix in todo if z3.is_false(model.eval(formulas[ix], model_completion=True))]
        if not bad:
            # One by one
            for ix in todo:
                solver = z3.Solver()
                solver.set('timeout', ms)
                solver.add(*path)
                solver.add(z3.Not(formulas[ix]))
                if solver.check() != z3.unsat:
                    bad.append(ix)
            return failing + bad
        failing += bad
        todo = [ix for ix in todo if ix not in bad]
    return failing


def verify(ip, machine, start):
    """The inductive invariants: (cuts, arrivals at the cuts, returns), each with the invariant it started from in its path (the start's path holds throughout: it is about the
    parameters only)"""
    machine.all_names = {st['expr']['name'] for st in machine.statements if 'expr' in st and 'name' in st['expr']}
    cuts = {}
    while True:
        changed = False
        returns = []
        arrivals = []
        sources = [(start, False)]
        for pc in list(cuts):
            cut = cuts[pc]
            state = cut.state.fork()
            state.path = cut.formulas(cut.state) + start.path
            state.path += [prefix_fact(param.lines(), value.t) for param in machine.params.values() for value in state.vars.values() if isinstance(value, Num)]
            sources.append((state, True))
        for source, first in sources:
            for where, state, value in machine.run(source, first):
                ip.tick()
                if where == 'return':
                    returns.append((state, value))
                elif where not in cuts:
                    cuts[where] = Cut(machine, where, state)
                    changed = True
                elif cuts[where].join(state):
                    changed = True
                else:
                    arrivals.append((where, state))
        if changed:
            continue
        for where, state in arrivals:
            ip.tick()
            cut = cuts[where]
            bad = implied(state.path, cut.formulas(state), 2000)
            if bad:
                changed = True
                bad = {cut.alive[ix] for ix in bad}
                cut.alive = [ix for ix in cut.alive if ix not in bad]
        if not changed:
            return cuts, arrivals, returns
