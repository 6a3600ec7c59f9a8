"""Obligations of the library functions (src/bare_script/library.py): argument validation, result, container updates and failure, against their contracts"""

import ast

import z3

from bare_script import library as mod
from bare_script import value as value_mod
from pyvc import interp, models
from pyvc import world as w
from pyvc.dsl import inline, is_input, obligation, prove_same, prove_same_content, prove_same_dict, value
from pyvc.engine import Base, ExcObj, Lit, PathEnd, PyExc, SDict, SList, SV, Unsupported, content_cat, ival
from pyvc.obs import evalx
from pyvc.terms import SCRIPT_KINDS, V, Content, Node, World, func
from specs import lib_contract, lib_spec, value_spec

# The call wrapper turns these into no failure value: they end the script
CONTROL = (w.RUNTIME_ERROR, w.INCLUDE_ERROR)


def callbacks(ip):
    """The contracts of the callees of library functions"""
    evalx.contracts(ip)
    ip.contracts[value_spec.spec_compare] = evalx.cmp_contract
    ip.contracts['sort'] = sort_contract
    ip.contracts[value_mod.ValueArgsError] = args_error
    ip.container_kinds = SCRIPT_KINDS
    ip.loop_contracts['*'] = find_loop


def args_error(ip, args, kwargs):
    """ValueArgsError(name, value, return_value): constructing it does not fail (value.args_error); its text is of no concern here"""
    value_of = args[2] if len(args) > 2 else kwargs.get('return_value')
    return ExcObj(value_mod.ValueArgsError, [ip.fresh('str', 'args_error')], {'return_value': value_of})


def rel_term(ip, key):
    """A sort key as a term: the comparison of two arbitrary elements"""
    if not isinstance(key, models.CmpKey):
        raise Unsupported('sort key')
    x, y = SV('val', z3.Const('sort_x', V)), SV('val', z3.Const('sort_y', V))
    for sv in (x, y):
        if sv.t.get_id() not in ip.kinds:
            ip.set_kinds(sv, SCRIPT_KINDS)
    world = ip.world
    result = ip.call(key.fn, [x, y])
    after, ip.world = ip.world, world
    return ip.to_v(result), after


SORTED = z3.Function('sorted_by', Content, V, z3.BoolSort(), Content)
SORT_WORLD = z3.Function('sort_world', World, Content, World, World)


def sort_contract(ip, obj, args, kwargs):
    """list.sort(key=cmp_to_key(f)): the host's stable sort by f (assumed); equal for comparisons that agree on every pair"""
    reverse = kwargs.get('reverse', False)
    key = kwargs.get('key')
    if args or set(kwargs) - {'key', 'reverse'} or key is None:
        raise Unsupported('list.sort')
    content = models.seq_term(ip, obj.content)
    rel, after = rel_term(ip, key)
    if after is not ip.world:
        ip.world = SORT_WORLD(ip.world, content, after)
    t = SORTED(content, rel, z3.BoolVal(bool(reverse)) if not isinstance(reverse, SV) else reverse.t)
    n = obj.content.n
    obj.content = Base(ip, t, SCRIPT_KINDS)
    ip.assume(obj.content.n == ival(n))


def sorted_contract(ip, args, kwargs):
    x = ip.unwrap(args[0])
    if not isinstance(x, SList) or not isinstance(kwargs.get('key'), models.CmpKey):
        return NotImplemented
    result = SList(ip, x.content)
    sort_contract(ip, result, [], kwargs)
    return result


#
# Search loops with calls of script functions
#

FIND_END = z3.Function('find_end', World, V, V, Content, z3.IntSort(), z3.IntSort(), z3.IntSort())    # the number of the iteration that leaves (or the last)
FIND_KIND = z3.Function('find_kind', World, V, V, Content, z3.IntSort(), z3.IntSort(), z3.IntSort())
FIND_WORLD = z3.Function('find_world', World, V, V, Content, z3.IntSort(), z3.IntSort(), World)


def find_loop(ip, frame, node, spc):
    """for ix in indexes: if truth(f([a[ix]])): return ix - one iteration is one call of f with the element at the index; the loop is the fold of that iteration.

    The contract applies where the loop body calls a script function; it claims, for a generic iteration from a generic state, that the body calls f once with exactly
    the element, leaves with the index if the result is true, goes on if it is not, and passes an exception on.
    """
    target = getattr(ip, 'find', None)
    if target is None or not isinstance(node, ast.For) or isinstance(spc.n, int):
        return NotImplemented
    fn, array, options = target
    outer = {name: frame.locals[name] for name in interp.stored_names(node) if name in frame.locals}
    rng = getattr(spc, 'range', None)
    first = ip.unwrap(spc.at(ip, 0)) if rng is None else None
    if rng is not None:
        start, step = rng[0], rng[2]
    else:
        if not isinstance(first, (int, SV)):
            raise Unsupported('indexes of a search')
        start, step = ip.int_of(first), None
    if step is None:
        second = ip.int_of(spc.at(ip, 1))
        step = z3.simplify(ival(second) - ival(start))
        if not z3.is_int_value(step):
            raise Unsupported('indexes of a search')
        step = step.as_long()
    content = array.content.term(ip)
    ft = ip.to_v(fn)
    win = w.enter(ip, options)
    key = (win, ft, V.none, content, ival(start), ival(spc.n))
    if ip.pick(['call', 'search']) == 'call':
        world = ip.world = ip.fresh_world()
        count = options.count = ip.fresh('int', 'count')
        k = ip.fresh('int', 'k').t
        ip.assume(z3.And(k >= 0, k < spc.n))
        for name in interp.stored_names(node):
            frame.locals.pop(name, None)
            frame.forgotten.add(name)
        depth = ip.depth
        try:
            interp.assign(ip, frame, node.target, spc.at(ip, k))
            signal = interp.block(ip, frame, node.body)
            got = ('go on',) if signal is None or signal[0] == 'continue' else signal
        except PyExc as exc:
            ip.depth = depth
            got = ('raise', exc.obj)
        got_world, got_count = ip.world, options.count
        ip.world, options.count = world, count
        index = z3.simplify(ival(start) + step * k)
        try:
            element = array.content.at(ip, index)
            hit = ip.truth(ip.call(value_spec.spec_boolean, [w.call_contract(ip, fn, [SList(ip, Lit([element])), options], {})]))
            want = ('return', SV('int', index)) if hit else ('go on',)
        except PyExc as exc:
            ip.depth = depth
            want = ('raise', exc.obj)
        ip.prove(got[0] == want[0], f'a step of the search ends with {want[0]}, not {got[0]}')
        ip.prove(got_world == ip.world, 'a step of the search calls the function once, with the element')
        ip.prove(w_count(got_count) == w_count(options.count), 'the counter after a step of the search')
        if got[0] == 'return':
            prove_same(ip, got[1], want[1], 'the index found', True)
        elif got[0] == 'raise':
            ip.prove(got[1].cls is want[1].cls, 'the exception of the function')
        raise PathEnd()
    w.leave(ip, options, FIND_WORLD(*key))
    for name in interp.stored_names(node):
        frame.locals.pop(name, None)
        frame.forgotten.add(name)
    for name, val in outer.items():
        frame.locals[name] = val
    kind = FIND_KIND(*key)
    text = func('find_error', ['int'], 'str')(kind)
    extra = [lambda ip2: w.raise_exc(ip2, w.OtherError, text)]
    w.control(ip, kind, text, extra)
    k = FIND_END(*key)
    if ip.branch(z3.And(k >= 0, k < spc.n)):
        return ('return', SV('int', z3.simplify(ival(start) + step * k)))
    return interp.block(ip, frame, node.orelse)


def w_count(count):
    return ival(count) if isinstance(count, int) else count.t


#
# The arguments
#


def arguments(ip, name):
    """Some argument list: the values up to and past the parameters"""
    params = lib_spec.SIGS[name][0]
    rest = bool(params) and params[-1]['rest']
    fixed = len(params) - 1 if rest else len(params)
    n = ip.pick(list(range(fixed + (0 if rest else 1))) + ['more'])
    if n == 'more':
        values = [value(ip, f'arg{ix}') for ix in range(fixed + (0 if rest else 1))]
        content = Base(ip, z3.Const('more_args', Content), SCRIPT_KINDS)
        return lambda: content_cat(Lit(values), content) if values else content
    values = [value(ip, f'arg{ix}') for ix in range(n)]
    return lambda: Lit(values)


def end_of(ip, thunk, failure):
    """How a library call ends for the script: a value, or a control exception"""
    depth = ip.depth
    try:
        return 'value', thunk()
    except PyExc as exc:
        ip.depth = depth
        if exc.obj.cls in CONTROL:
            return 'raise', exc.obj.cls
        if issubclass(exc.obj.cls, value_mod.ValueArgsError):
            return 'value', exc.obj.attrs.get('return_value')
        if exc.obj.cls is w.OtherError:
            # A called function failed: the call wrapper gives null
            return 'value', None
        return 'value', failure


def initial_state(ip):
    for obj in ip.lists:
        if hasattr(obj, 'initial'):
            obj.content = obj.initial
    for obj in ip.dicts:
        if hasattr(obj, 'initial'):
            obj.base, obj.writes = obj.initial, []


def final_state(ip):
    return ({id(obj): obj.content for obj in ip.lists if hasattr(obj, 'initial')}, {id(obj): (obj.base, list(obj.writes)) for obj in ip.dicts if hasattr(obj, 'initial')})


def same_state(ip, got, want, numeric=False):
    """Claim: every container of the input ends with the same content"""
    for obj in list(ip.lists):
        if not hasattr(obj, 'initial'):
            continue
        a, b = got[0].get(id(obj), obj.initial), want[0].get(id(obj), obj.initial)
        if a is not b:
            prove_same_content(ip, a, b, 'content of an array after the call', numeric)
    for obj in list(ip.dicts):
        if not hasattr(obj, 'initial'):
            continue
        a, b = got[1].get(id(obj), (obj.initial, [])), want[1].get(id(obj), (obj.initial, []))
        if a != b:
            prove_same_dict(ip, SDict(ip, *a), SDict(ip, *b), 'content of an object after the call', numeric)


class Failed(Exception):
    pass


def library(name, props, limit_s=60, options_kinds=('options',), prepare=None):
    """The obligation of one library function"""
    code_name = f'library.{mod.SCRIPT_FUNCTIONS[name].__name__}' if name in mod.SCRIPT_FUNCTIONS else f'library ({name})'

    @obligation(f'library.{name}', props, [code_name, 'value.value_args_validate'], limit_s=limit_s)
    def _(ip):
        ip.world = z3.Const('W0', World)
        options = w.Options(ip) if ip.pick(list(options_kinds)) == 'options' else None
        callbacks(ip)
        ip.contracts['sorted'] = sorted_contract
        content = arguments(ip, name)
        fn = mod.SCRIPT_FUNCTIONS[name]
        failure = lib_spec.SIGS[name][1]
        spec = lib_contract.CONTRACTS[name]
        world, count = ip.world, options.count if options is not None else None
        if prepare is not None:
            prepare(ip, content, options)
        got = end_of(ip, lambda: inline(ip, fn, SList(ip, content()), options).unwrap(), None)
        got_state, got_world, got_count = final_state(ip), ip.world, options.count if options is not None else None
        initial_state(ip)
        ip.world = world
        if options is not None:
            options.count = count

        def reference():
            args = SList(ip, content())
            given = args.content
            valid = ip.call(lib_spec.spec_validate, [name, args])
            if valid is not lib_spec.FAIL:
                params = models.concrete_items(ip, valid)
                extra = [options] if name in lib_contract.WITH_OPTIONS else []
                result = ip.call(spec, params + extra)
                if result is not lib_spec.FAIL:
                    return result
            initial_state(ip)
            if failure == 'arg2':
                return given.at(ip, 2) if (given.n > 2 if isinstance(given.n, int) else ip.branch(ival(given.n) > 2)) else None
            return failure

        want = end_of(ip, reference, failure if failure != 'arg2' else None)
        want_state, want_world = final_state(ip), ip.world
        ip.prove(got[0] == want[0], f'ends with {want[0]}, not {got[0]}')
        ip.prove(got_world == want_world, 'the same calls, writes and log entries, in the same order')
        if options is not None:
            ip.prove(w_count(got_count) == w_count(options.count), 'the statement counter')
        if got[0] == 'raise':
            ip.prove(got[1] is want[1], 'the same exception')
        else:
            prove_same(ip, got[1], want[1], 'result', True)
        same_state(ip, got_state, want_state)


def find_prepare(ip, content, options):
    """The searched array and the function of arrayIndexOf"""
    c = content()
    if isinstance(c.n, int) and c.n < 2:
        return
    array, fn = c.at(ip, 0), c.at(ip, 1)
    if isinstance(array, SV) and array.k == 'val' and ip.has_kind(array, frozenset(['list'])) and isinstance(fn, SV) and fn.k == 'val' and ip.has_kind(fn, frozenset(['fn'])):
        ip.find = (fn, ip.unwrap(array), options)


PROVED = list(lib_contract.CONTRACTS)
ARRAYS = ['C15', 'C12', 'C05']
for _name in lib_contract.CONTRACTS:
    if _name in ('arrayIndexOf', 'arrayLastIndexOf'):
        library(_name, ARRAYS + ['C11'], 400, prepare=find_prepare)
    elif _name == 'arraySort':
        library(_name, ARRAYS + ['C11'], 120)
    elif _name in lib_spec.C15_FUNCTIONS:
        library(_name, ARRAYS)
    elif _name.startswith('datetime'):
        library(_name, ['C16', 'C05'])
    elif _name.startswith('math'):
        library(_name, ['C12', 'C05'])
    elif _name == 'systemCompare':
        library(_name, ['C11', 'C05'])
    elif _name.startswith('systemG') or _name.startswith('systemL'):
        library(_name, ['C04', 'C05'], options_kinds=('options', 'no options'))
    else:
        library(_name, ['C03', 'C05'])
