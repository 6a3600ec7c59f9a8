"""Obligations of the data functions (src/bare_script/data.py, C19)"""

import z3

from bare_script import data as mod
from bare_script import parser as parser_mod
from bare_script import value as value_mod
from pyvc import interp, models
from pyvc import world as w
from pyvc.dsl import inline, obligation, outcome, prove_same, prove_same_content, tail_loop, value
from pyvc.engine import SV, Base, Lit, Model, PathEnd, PyExc, SDict, SList, Unsupported, content_cat, func, ival
from pyvc.obs import evalx, libx, parsex
from pyvc.terms import SCRIPT_KINDS, V, World
from specs import table_spec

DICT = frozenset(['dict'])


def table(ip, name='data'):
    """An array of row objects"""
    return SList(ip, Base(ip, ip.fresh('content', name).t, DICT))


def row(ip, name):
    return ip.unwrap(value(ip, name, DICT))


#
# dataSort
#

ROW_ORDER = z3.Function('row_order', V, V, V, z3.IntSort(), z3.IntSort())


def cmp_term(ip, args, kwargs):
    """value_compare by its contract: antisymmetric (value_compare.total_preorder)"""
    result = evalx.cmp_contract(ip, args, kwargs)
    other = evalx.cmp_contract(ip, [args[1], args[0]], kwargs)
    a, b = ip.int_of(result), ip.int_of(other)
    ip.assume(ival(a) == -ival(b))
    return result


@obligation('data.sort_key', ['C19', 'C11'], ['data._sort_data_fn'])
def _(ip):
    """Two rows are ordered by the first key that tells them apart, in its direction (any number of keys)"""
    evalx.contracts(ip)
    ip.contracts[value_mod.value_compare] = cmp_term
    row1, row2 = row(ip, 'row1'), row(ip, 'row2')
    keys = value(ip, 'sorts', frozenset(['list']))
    sorts = ip.unwrap(keys)
    terms = (keys.t, ip.to_v(row1), ip.to_v(row2))

    def summary(k):
        return ROW_ORDER(*terms, k)

    def unfold(k):
        n = ival(sorts.content.n)
        if not ip.branch(k < n):
            ip.assume(summary(k) == 0)
            return
        key = sorts.content.at(ip, k)
        if not ip.has_kind(key, frozenset(['list'])):
            raise PathEnd()
        key = ip.unwrap(key)
        ip.assume(key.content.n >= 1)
        field = key.content.at(ip, 0)
        if not ip.has_kind(field, frozenset(['str'])):
            raise PathEnd()
        step = ip.int_of(inline(ip, table_spec.sort_step, key, row1, row2).unwrap())
        ip.assume(summary(k) == z3.If(ival(step) != 0, ival(step), summary(k + 1)))

    def claim(k, got):
        got = ip.unwrap(got)
        return ival(ip.int_of(got)) == summary(k)

    def loop(ip2, frame, node, spc):
        return tail_loop(ip2, frame, node, spc, summary, unfold, claim)

    ip.loop_contracts['_sort_data_fn'] = loop
    result = inline(ip, mod._sort_data_fn, sorts, row1, row2).unwrap()  # pylint: disable=protected-access
    ip.prove(ival(ip.int_of(ip.unwrap(result))) == summary(z3.IntVal(0)), 'the order of two rows')


@obligation('data.sort_data', ['C19', 'C11'], ['data.sort_data'])
def _(ip):
    """The rows are stably sorted, in place, by the order of the keys"""
    evalx.contracts(ip)
    ip.contracts['sort'] = libx.sort_contract
    keys = value(ip, 'sorts', frozenset(['list']))

    def order(ip2, args, kwargs):
        if len(args) != 3 or ip2.unwrap(args[0]) is not sorts:
            raise Unsupported('arguments of the order of rows')
        return SV('int', ROW_ORDER(keys.t, ip2.to_v(args[1]), ip2.to_v(args[2]), z3.IntVal(0)))

    sorts = ip.unwrap(keys)
    ip.contracts[mod._sort_data_fn] = order  # pylint: disable=protected-access
    content = ip.fresh('content', 'data').t
    data, again = SList(ip, Base(ip, content, DICT)), SList(ip, Base(ip, content, DICT))
    result = inline(ip, mod.sort_data, data, sorts).unwrap()
    ip.prove(result is data, 'the result is the array')
    inline(ip, table_spec.sort_rows, again, Model(lambda ip2, args, kwargs: order(ip2, [sorts, *args], kwargs))).unwrap()
    prove_same_content(ip, data.content, again.content, 'the sorted rows')


#
# Row expressions
#

ROW_VALUE = z3.Function('row_value', World, V, V, V)
ROW_WORLD = z3.Function('row_world', World, V, V, World)
ROW_KIND = z3.Function('row_kind', World, V, V, z3.IntSort())


class Rows:
    """The setting of a function that evaluates an expression on every row, with or without variables; the evaluation (evaluate.*) is by contract"""

    def __init__(self, ip):
        self.ip = ip
        ip.world = z3.Const('W0', World)
        self.options = w.Options(ip) if ip.pick(['options', 'no options']) == 'options' else None
        self.variables = None
        if ip.pick(['no variables', 'variables']) == 'variables':
            self.variables = SDict(ip, base=ip.fresh('dcontent', 'variables').t, ref=ip.fresh('int', 'variables_ref').t)
            if self.options is not None and ip.pick(['globals', 'no globals']) == 'no globals':
                self.options.has_globals = False
        parsex.contracts(ip)
        evaluate = Model(self.evaluate)
        ip.contracts[mod._import_evaluate_expression] = lambda ip2, args, kwargs: evaluate  # pylint: disable=protected-access
        self.expr = ip.input('str', 'expr')
        self.content = ip.fresh('content', 'data').t
        self.data = SList(ip, Base(ip, self.content, DICT))

    def evaluate(self, ip, args, kwargs):
        names = ('expr', 'options', 'locals_', 'builtins')
        values = {**dict(zip(names, args)), **kwargs}
        options = self.check_options(ip, ip.unwrap(values.get('options')))
        if 'builtins' in values:
            ip.prove(values['builtins'] is True, 'expression functions are available')
        expr, row_obj = ip.to_v(values['expr']), ip.unwrap(values['locals_'])
        if not isinstance(row_obj, SDict):
            ip.prove(False, 'the expression is evaluated on a row')
            raise PathEnd()
        rowv = ip.to_v(row_obj)
        win = w.enter(ip, options)
        w.leave(ip, options, ROW_WORLD(win, expr, rowv))
        kind = ROW_KIND(win, expr, rowv)
        w.control(ip, kind, func('row_error', ['int'], 'str')(kind))
        sv = SV('val', ROW_VALUE(win, expr, rowv))
        if sv.t.get_id() not in ip.kinds:
            ip.set_kinds(sv, SCRIPT_KINDS)
        return sv

    def check_options(self, ip, options):
        """Claim: the options of the evaluation are the options of the caller; with variables, a copy whose globals are a copy that the variables overlay"""
        what = 'the expression is evaluated with the options'
        if self.variables is None:
            ip.prove(options is self.options, what)
            if options is not self.options:
                raise PathEnd()
            return options
        if self.options is None:
            globals_ = options.concrete().get('globals') if isinstance(options, SDict) and options.concrete() is not None else None
            ip.prove(globals_ is not None and list(options.concrete()) == ['globals'] and self.is_variables(ip, globals_), f'{what}: the variables')
            return None
        if not isinstance(options, w.Options):
            ip.prove(False, what)
            raise PathEnd()
        ip.prove(options is not self.options and not options.overrides and not self.options.overrides, f'{what}: a copy with other globals')
        given = self.options.globals
        if self.options.has_globals:
            found = options.globals
            ip.prove(isinstance(found, w.Overlay) and found.base is given and len(found.layers) == 1 and self.is_variables(ip, found.layers[0]),
                     f'{what}: the variables overlay the globals')
        else:
            ip.prove(self.is_variables(ip, options.globals), f'{what}: the variables')
        return options

    def is_variables(self, ip, obj):
        obj = ip.unwrap(obj)
        return isinstance(obj, SDict) and obj.base is not None and obj.base.eq(self.variables.base) and not obj.writes and not self.variables.writes

    def all_options(self, frame):
        """The options of the caller, and the copy that the function made"""
        if self.options is None:
            return []
        copies = [value for scope in (frame, frame.parent) if scope is not None for value in scope.locals.values()
                  if isinstance(value, w.Options) and value is not self.options]
        if len(copies) != (1 if self.variables is not None else 0):
            raise Unsupported('form of the options of the evaluation')
        return [self.options, *copies]

    def parsed(self):
        """The expression, or None if the text has an error"""
        result = outcome(self.ip, Model(parsex.parse_expression_contract), self.expr)
        return result.value if result.ok else None

    def iteration(self, ip, frame, node, spc):
        """A generic iteration: (row, how the body ends, its world; the value of the expression on the row, its error, its world)"""
        k = ip.fresh('int', 'k').t
        ip.assume(z3.And(k >= 0, k < ival(spc.n)))
        element = ip.unwrap(spc.at(ip, k))
        ip.prove(ip.to_v(element) == ip.to_v(self.data.content.at(ip, k)), 'the rows in order')
        world = ip.world = ip.fresh_world()
        count = ip.fresh('int', 'count')
        for options in self.all_options(frame):
            options.count = count
        writes = list(element.writes)
        interp.assign(ip, frame, node.target, element)
        depth = ip.depth
        signal, error = None, None
        try:
            signal = interp.block(ip, frame, node.body)
        except PyExc as exc:
            error = exc.obj
            ip.depth = depth
        got_world, got_count = ip.world, self.options.count if self.options is not None else None
        after, element.writes = list(element.writes), writes
        ip.world = world
        passed = self.options
        for options in self.all_options(frame):
            options.count = count
            passed = options
        if self.options is None and self.variables is not None:
            passed = SDict(ip)
            passed.setitem(ip, 'globals', self.variables)
        spec = outcome(ip, Model(self.evaluate), self.parsed(), passed, element)
        ip.prove(got_world == ip.world, 'the expression is evaluated once on the row')
        if self.options is not None:
            ip.prove(libx.w_count(got_count) == libx.w_count(passed.count), 'the statement counter')
        ip.prove((error is None) == spec.ok, 'an error of the expression ends the function')
        if error is not None:
            if not spec.ok:
                ip.prove(error.cls is spec.exc.cls, 'the error of the expression')
            raise PathEnd()
        if not spec.ok:
            raise PathEnd()
        ip.prove(signal is None or signal[0] == 'continue', 'the loop goes on')
        return element, after, spec.value


@obligation('data.filter_data', ['C19'], ['data.filter_data', 'data._evaluate_row'])
def _(ip):
    """The result is a new array of exactly the rows, in order, whose expression is truthy"""
    rows = Rows(ip)
    results = []

    def loop(ip2, frame, node, spc):
        lists = [val for val in frame.locals.values() if isinstance(val, SList) and val is not rows.data]
        if len(lists) != 1:
            raise Unsupported('form of the filter')
        result, = lists
        prove_same_content(ip2, result.content, Lit([]), 'no rows at first')
        before = Base(ip2, ip2.fresh('content', 'kept').t, DICT)
        result.content = before
        if ip2.pick(['iteration', 'exit']) == 'exit':
            results.append(result)
            return None
        element, after, val = rows.iteration(ip2, frame, node, spc)
        ip2.prove(after == element.writes, 'the row is unchanged')
        added = inline(ip2, table_spec.filter_step, val, element).unwrap()
        if isinstance(added, list):
            added = models.lift(ip2, added)
        prove_same_content(ip2, result.content, content_cat(before, added.content) if added.content.n else before, 'the rows kept')
        raise PathEnd()

    ip.loop_contracts['filter_data'] = loop
    result = inline(ip, mod.filter_data, rows.data, rows.expr, rows.variables, rows.options)
    parsed = rows.parsed()
    ip.prove(result.ok == (parsed is not None), 'an expression that does not parse is an error')
    if result.ok:
        ip.prove(len(results) == 1 and result.value is results[0], 'the result is the array of the rows kept')
        ip.prove(isinstance(rows.data.content, Base) and rows.data.content.t.eq(rows.content), 'the table is unchanged')
    else:
        ip.prove(result.exc.cls is parser_mod.BareScriptParserError, 'the error of the parser')


@obligation('data.add_calculated_field', ['C19'], ['data.add_calculated_field', 'data._evaluate_row'])
def _(ip):
    """Every row gets the value of the expression on it, and nothing else changes"""
    rows = Rows(ip)
    field = ip.input('str', 'field_name')
    loops = []

    def loop(ip2, frame, node, spc):
        ip2.prove(not loops, 'one pass over the rows')
        if ip2.pick(['iteration', 'exit']) == 'exit':
            loops.append(node)
            return None
        element, after, val = rows.iteration(ip2, frame, node, spc)
        ip2.prove(len(after) == len(element.writes) + 1 and after[:-1] == element.writes, 'one field of the row is written')
        if len(after) == len(element.writes) + 1:
            prove_same(ip2, after[-1][0], field, 'the name of the field')
            prove_same(ip2, after[-1][1], val, 'the value of the field')
        raise PathEnd()

    ip.loop_contracts['add_calculated_field'] = loop
    result = inline(ip, mod.add_calculated_field, rows.data, field, rows.expr, rows.variables, rows.options)
    parsed = rows.parsed()
    ip.prove(result.ok == (parsed is not None), 'an expression that does not parse is an error')
    if result.ok:
        ip.prove(result.value is rows.data, 'the result is the table')
        ip.prove(len(loops) == 1, 'the field is computed for the rows')
        ip.prove(isinstance(rows.data.content, Base) and rows.data.content.t.eq(rows.content), 'the array of rows is unchanged')
    else:
        ip.prove(result.exc.cls is parser_mod.BareScriptParserError, 'the error of the parser')
