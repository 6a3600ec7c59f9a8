"""Obligations of C12 (one number type): a library function or operator, run on an int and on the float of the same value, ends the same way.

Self-composition of the code: argument p is an int n, |n| < 1e15, in the first run and the float n in the second; the other arguments are arbitrary. One position at a
time is enough: the spellings of any two argument lists are connected by changing one argument after the other. (Numbers inside container arguments are the same in both
runs; they are the bounded harness's.)
"""

import z3

from bare_script import library as mod
from bare_script import runtime as runtime_mod
from pyvc import world as w
from pyvc.dsl import inline, obligation, prove_same, value
from pyvc.engine import Base, Lit, SDict, SList, SV, content_cat
from pyvc.obs import evalx, libx
from pyvc.terms import SCRIPT_KINDS, Content, World
from specs import lib_spec

LIMIT = 10 ** 15


def twin(ip):
    """An integral number, as an int and as a float"""
    n = ip.input('int', 'n')
    ip.assume(z3.And(n.t > -LIMIT, n.t < LIMIT))
    return n, SV('real', z3.ToReal(n.t))


def run_twice(ip, options, first, second):
    """Both runs end the same way"""
    world, count = ip.world, options.count
    got = libx.end_of(ip, first, None)
    got_state, got_world, got_count = libx.final_state(ip), ip.world, options.count
    libx.initial_state(ip)
    ip.world, options.count = world, count
    want = libx.end_of(ip, second, None)
    ip.prove(got[0] == want[0], 'the float ends like the int')
    ip.prove(got_world == ip.world, 'the same calls, writes and log entries')
    ip.prove(libx.w_count(got_count) == libx.w_count(options.count), 'the statement counter')
    if got[0] == 'raise':
        ip.prove(got[1] is want[1], 'the same exception')
    else:
        prove_same(ip, got[1], want[1], 'result', True)
    libx.same_state(ip, got_state, libx.final_state(ip), True)


def library(name, positions, limit_s=60):
    params = lib_spec.SIGS[name][0]
    rest = bool(params) and params[-1]['rest']

    @obligation(f'twin.{name}', ['C12'], [f'library.{mod.SCRIPT_FUNCTIONS[name].__name__}', 'value.value_args_validate'], limit_s=limit_s)
    def _(ip):
        ip.world = z3.Const('W0', World)
        options = w.Options(ip)
        libx.callbacks(ip)
        ip.contracts['sorted'] = libx.sorted_contract
        evalx.number_twins(ip)
        position = ip.pick(positions)
        count = ip.pick(list(range(position + 1, len(params) + 1)))
        values = [value(ip, f'arg{ix}') if ix != position else None for ix in range(count)]
        more = Base(ip, z3.Const('more_args', Content), SCRIPT_KINDS) if rest and count == len(params) else None
        spellings = twin(ip)

        def content(spelling):
            items = Lit(values[:position] + [spelling] + values[position + 1:])
            return content_cat(items, more) if more is not None else items

        fn = mod.SCRIPT_FUNCTIONS[name]
        if name in ('arrayIndexOf', 'arrayLastIndexOf') and position != 0:
            libx.find_prepare(ip, lambda: content(spellings[0]), options)
        run_twice(ip, options, *(lambda s=s: inline(ip, fn, SList(ip, content(s)), options).unwrap() for s in spellings))


def operator(op):
    @obligation(f'twin.operator {op}', ['C12'], ['runtime.evaluate_expression'], limit_s=60)
    def _(ip):
        options, locals_, builtins = evalx.setup(ip, fork_globals=False)
        evalx.number_twins(ip)
        position = ip.pick(['left', 'right'])
        left, right, expr = evalx.binary_expr(ip, op)
        other = value(ip, 'other')
        if ip.has_kind(other, frozenset(['int'])):
            # The property's numbers
            other = ip.unwrap(other)
            ip.assume(z3.And(other.t > -LIMIT, other.t < LIMIT))
        spellings = twin(ip)

        def run(spelling):
            operands = {'left': other, 'right': other, position: spelling}
            ip.contracts[runtime_mod.evaluate_expression] = lambda ip2, args, kwargs: operands['left' if args[0] is left else 'right']
            return inline(ip, runtime_mod.evaluate_expression, expr, options, locals_, builtins).unwrap()

        run_twice(ip, options, *(lambda s=s: run(s) for s in spellings))


@obligation('twin.unary', ['C12'], ['runtime.evaluate_expression'])
def _(ip):
    options, locals_, builtins = evalx.setup(ip, fork_globals=False)
    op = ip.pick(['!', '-'])
    expr = SDict(ip, None, [('unary', SDict(ip, None, [('op', op), ('expr', evalx.node(ip, 'sub'))]))])

    def run(spelling):
        ip.contracts[runtime_mod.evaluate_expression] = lambda ip2, args, kwargs: spelling
        return inline(ip, runtime_mod.evaluate_expression, expr, options, locals_, builtins).unwrap()

    run_twice(ip, options, *(lambda s=s: run(s) for s in twin(ip)))


# systemGlobalSet and objectSet-like stores keep the spelling; equality of what is stored is up to the spelling
EXCLUDED = {'systemGlobalSet'}
# Functions without a contract of their own whose two runs are still within reach
MORE = ('dataAggregate', 'dataCalculatedField', 'dataFilter', 'dataSort', 'datetimeISOParse', 'jsonParse', 'numberParseFloat', 'numberParseInt', 'regexMatch', 'regexMatchAll',
        'regexNew', 'regexReplace', 'regexSplit', 'schemaParseEx', 'schemaTypeModel', 'schemaValidateTypeModel', 'systemFetch', 'mathRound', 'numberToFixed')
for _name in libx.PROVED + list(MORE):
    if _name not in EXCLUDED and lib_spec.SIGS[_name][0]:
        library(_name, list(range(len(lib_spec.SIGS[_name][0]))))
for _op in evalx.BINARY_OPS + ('&&', '||'):
    operator(_op)
