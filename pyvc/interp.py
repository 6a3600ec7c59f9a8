"""Statements and expressions of the verified Python subset"""

import ast

import z3

from pyvc import models
from pyvc.engine import (Bound, Closure, EObj, ExcObj, Frame, GenExp, LazyIter, Lit, MapC, PathEnd, PyExc, SDict, SList, Space, SpaceIter, SV, Unsupported, ival,
                         interpretable, local_names, mk_bool, simp)

MAX_UNROLL = 2000


def block(ip, frame, stmts):
    for stmt in stmts:
        signal = STATEMENTS[type(stmt)](ip, frame, stmt) if type(stmt) in STATEMENTS else unsupported(stmt)
        if signal is not None:
            return signal
    return None


def unsupported(node):
    raise Unsupported(f'{type(node).__name__} at line {getattr(node, "lineno", "?")}')


def st_expr(ip, frame, node):
    if isinstance(node.value, ast.Constant):
        return
    ev(ip, frame, node.value)


def st_assign(ip, frame, node):
    value = ev(ip, frame, node.value)
    for target in node.targets:
        assign(ip, frame, target, value)


def st_annassign(ip, frame, node):
    if node.value is not None:
        assign(ip, frame, node.target, ev(ip, frame, node.value))


def set_name(ip, frame, name, value):
    owner = frame
    while owner is not None:
        if name in owner.names:
            owner.locals[name] = value
            owner.forgotten.discard(name)
            return
        owner = owner.parent
    raise Unsupported(f'assignment of the global {name}')


def assign(ip, frame, target, value):
    if isinstance(target, ast.Name):
        set_name(ip, frame, target.id, value)
    elif isinstance(target, (ast.Tuple, ast.List)):
        items = unpack(ip, value, target.elts)
        for element, item in zip(target.elts, items):
            assign(ip, frame, element.value if isinstance(element, ast.Starred) else element, item)
    elif isinstance(target, ast.Subscript):
        obj = ip.unwrap(ev(ip, frame, target.value))
        key = subscript_key(ip, frame, target.slice)
        if isinstance(obj, EObj):
            obj.setitem(ip, key, value)
        elif isinstance(obj, (list, dict)):
            raise Unsupported('assignment into a host container')
        else:
            ip.raise_(TypeError, 'item assignment')
    elif isinstance(target, ast.Attribute):
        obj = ev(ip, frame, target.value)
        if not isinstance(obj, EObj):
            raise Unsupported('attribute assignment of a host object')
        obj.setattr(ip, target.attr, value)
    else:
        unsupported(target)


def unpack(ip, value, targets):
    value = ip.unwrap(value)
    starred = [ix for ix, target in enumerate(targets) if isinstance(target, ast.Starred)]
    if isinstance(value, LazyIter):
        value = tuple(value.gen)
    if isinstance(value, (tuple, list, str)):
        items = list(value)
    else:
        spc = models.space_of(ip, value)
        n = spc.n
        if starred:
            raise Unsupported('starred unpacking of a symbolic sequence')
        if not isinstance(n, int):
            if not ip.branch(n == len(targets)):
                ip.raise_(ValueError, 'wrong number of values to unpack')
            n = len(targets)
        items = [spc.at(ip, k) for k in range(n)]
    if starred:
        ix = starred[0]
        rest = len(items) - (len(targets) - 1)
        if rest < 0:
            ip.raise_(ValueError, 'not enough values to unpack')
        return items[:ix] + [SList(ip, Lit(items[ix:ix + rest]))] + items[ix + rest:]
    if len(items) != len(targets):
        ip.raise_(ValueError, 'wrong number of values to unpack')
    return items


def st_augassign(ip, frame, node):
    op = type(node.op)
    target = node.target
    if isinstance(target, ast.Name):
        left = frame.lookup(ip, target.id)
        right = ev(ip, frame, node.value)
        set_name(ip, frame, target.id, aug(ip, op, left, right))
    elif isinstance(target, ast.Subscript):
        obj = ip.unwrap(ev(ip, frame, target.value))
        key = subscript_key(ip, frame, target.slice)
        left = models.getitem(ip, obj, key)
        right = ev(ip, frame, node.value)
        obj.setitem(ip, key, aug(ip, op, left, right))
    elif isinstance(target, ast.Attribute):
        obj = ev(ip, frame, target.value)
        left = models.getattribute(ip, obj, target.attr)
        right = ev(ip, frame, node.value)
        obj.setattr(ip, target.attr, aug(ip, op, left, right))
    else:
        unsupported(target)


def aug(ip, op, left, right):
    left = ip.unwrap(left)
    if op is ast.Add and isinstance(left, SList):
        models.call_method(ip, left, 'extend', [right], {})
        return left
    return models.binary(ip, op, left, right)


def st_if(ip, frame, node):
    return block(ip, frame, node.body if ip.truth(ev(ip, frame, node.test)) else node.orelse)


def loop_contract(ip, frame, node, spc):
    """The result of the loop contract of the function, or of the contract for any loop ('*')"""
    for name in (frame.qualname, '*'):
        contract = ip.loop_contracts.get(name)
        if contract is not None:
            result = contract(ip, frame, node, spc)
            if result is not NotImplemented:
                return result
    return NotImplemented


def st_while(ip, frame, node):
    result = loop_contract(ip, frame, node, None)
    if result is not NotImplemented:
        return result
    for _ in range(MAX_UNROLL):
        ip.tick()
        if not ip.truth(ev(ip, frame, node.test)):
            return block(ip, frame, node.orelse)
        signal = block(ip, frame, node.body)
        if signal is not None:
            if signal[0] == 'break':
                return None
            if signal[0] != 'continue':
                return signal
        if len(ip.trace) > 400:
            break
    raise Unsupported('while loop without a contract')


def st_for(ip, frame, node):
    iterable = ip.unwrap(ev(ip, frame, node.iter))
    if isinstance(iterable, LazyIter):
        elements = iterable.gen
    elif isinstance(iterable, (list, tuple, str, range, dict, set, frozenset)) or (not isinstance(iterable, (SV, EObj)) and hasattr(iterable, '__iter__')):
        if ip.host_loops and not isinstance(iterable, str):
            items = list(iterable)
            result = loop_contract(ip, frame, node, Space(len(items), lambda ip2, k: items[k]))
            if result is not NotImplemented:
                return result
            iterable = items
        elements = iter(iterable)
    else:
        if isinstance(iterable, SList) and isinstance(iterable.content, Lit):
            elements = live_list(ip, iterable)
        else:
            spc = models.space_of(ip, iterable)
            if isinstance(spc.n, int) and spc.n <= MAX_UNROLL:
                elements = (spc.at(ip, k) for k in range(spc.n))
            else:
                result = loop_contract(ip, frame, node, spc)
                if result is not NotImplemented:
                    return result
                if append_loop(ip, frame, node, iterable):
                    return None
                return search_loop(ip, frame, node, spc)
    for element in elements:
        ip.tick()
        assign(ip, frame, node.target, element)
        signal = block(ip, frame, node.body)
        if signal is not None:
            if signal[0] == 'break':
                return None
            if signal[0] != 'continue':
                return signal
    return block(ip, frame, node.orelse)


def append_loop(ip, frame, node, iterable):
    """The loop that appends to a new list what it computes of each element is the comprehension (with the test of an "if" around the append, if there is one)"""
    tests, body = [], node.body
    while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
        tests.append(body[0].test)
        body = body[0].body
    call = body[0].value if len(body) == 1 and isinstance(body[0], ast.Expr) else None
    if node.orelse or not isinstance(call, ast.Call) or not isinstance(call.func, ast.Attribute) or call.func.attr != 'append' or call.keywords or \
            len(call.args) != 1 or isinstance(call.args[0], ast.Starred) or not isinstance(call.func.value, ast.Name):
        return False
    name = call.func.value.id
    target = frame.locals.get(name)
    if not isinstance(target, SList) or target.ref is not None and not z3.is_int_value(target.ref):
        return False
    if any(isinstance(child, ast.Name) and child.id == name for part in (call.args[0], node.target, *tests) for child in ast.walk(part)) or \
            any(isinstance(child, (ast.NamedExpr, ast.Yield, ast.Await)) for part in (call.args[0], *tests) for child in ast.walk(part)):
        return False
    comp = ast.ListComp(elt=call.args[0], generators=[ast.comprehension(target=node.target, iter=node.iter, ifs=tests, is_async=0)])
    ast.copy_location(comp, node)
    models.call_method(ip, target, 'extend', [SList(ip, symbolic_comp(ip, frame, comp, iterable))], {})
    for stored in stored_names(node.target):
        frame.locals.pop(stored, None)
        frame.forgotten.add(stored)
    return True


def stored_names(node):
    return {child.id for child in ast.walk(node) if isinstance(child, ast.Name) and isinstance(child.ctx, (ast.Store, ast.Del))}


def search_loop(ip, frame, node, spc):
    """The rule for loops without carried state: an iteration leaves the loop (return, break, raise) or changes nothing.

    The loop ends at the first element whose iteration leaves, with that iteration's effects, or runs to the end and changes nothing.
    An iteration that falls through with a change of the state is outside the rule.
    """
    assigned = stored_names(node)
    outer = {name: frame.locals[name] for name in assigned if name in frame.locals}

    def iteration(sub, k):
        for name in assigned:
            frame.locals.pop(name, None)
            frame.forgotten.add(name)
        for name, value in outer.items():
            frame.locals[name] = value
            frame.forgotten.discard(name)
        assign(sub, frame, node.target, spc.at(sub, k))
        return block(sub, frame, node.body)

    targets = stored_names(node.target)

    def leaves(sub, k):
        depth = sub.depth
        try:
            before = sub.snapshot()
            signal = iteration(sub, k)
        except PyExc:
            sub.depth = depth
            return True
        if signal is not None and signal[0] != 'continue':
            return True
        if any(frame.locals.get(name, frame) is not value for name, value in outer.items() if name not in targets):
            raise Unsupported(f'loop over a symbolic sequence with carried state in {frame.qualname} without a contract')
        if not unchanged(before, sub.snapshot()):
            raise Unsupported(f'loop over a symbolic sequence with effects in {frame.qualname} without a contract')
        return False

    def leaves_pure(sub, k):
        # The effects of a leaving iteration happen when it is executed below
        world, effects = sub.world, sub.effects
        contents = [(lst, lst.content) for lst in sub.lists]
        writes = [(dct, dct.base, list(dct.writes)) for dct in sub.dicts]
        result = leaves(sub, k)
        if result:
            sub.world, sub.effects = world, effects
            for lst, content in contents:
                lst.content = content
            for dct, base, items in writes:
                dct.base, dct.writes = base, items
        return result

    k = ip.first_match(spc.n, leaves_pure)
    if k is None:
        for name in assigned:
            frame.locals.pop(name, None)
            frame.forgotten.add(name)
        for name, value in outer.items():
            if name not in targets:
                frame.locals[name] = value
                frame.forgotten.discard(name)
        return block(ip, frame, node.orelse)
    signal = iteration(ip, k)
    if signal is None or signal[0] == 'continue':
        raise PathEnd()
    return None if signal[0] == 'break' else signal


def unchanged(before, after):
    return after[:2] == before[:2] and after[2][:len(before[2])] == before[2] and after[3][:len(before[3])] == before[3]


def live_list(ip, lst):
    """Iteration over a list object sees its mutations"""
    k = 0
    while True:
        n = lst.content.n
        if not isinstance(n, int):
            raise Unsupported('list becomes symbolic during iteration')
        if k >= n:
            return
        yield lst.content.at(ip, k)
        k += 1


def st_return(ip, frame, node):
    return ('return', ev(ip, frame, node.value) if node.value is not None else None)


def st_raise(ip, frame, node):
    if node.exc is None:
        holder = frame
        while holder is not None and holder.exc is None:
            holder = holder.parent
        if holder is None:
            raise Unsupported('bare raise outside a handler')
        raise PyExc(holder.exc)
    exc = ev(ip, frame, node.exc)
    if isinstance(exc, type) and issubclass(exc, BaseException):
        exc = ip.make_exception(exc, [], {})
    if not isinstance(exc, ExcObj):
        raise Unsupported('raise of a non-exception')
    if node.cause is not None:
        ev(ip, frame, node.cause)
    raise PyExc(exc)


def handler_matches(ip, frame, handler, exc):
    if handler.type is None:
        return True
    classes = ev(ip, frame, handler.type)
    classes = classes if isinstance(classes, tuple) else (classes,)
    return any(issubclass(exc.cls, cls) for cls in classes)


def st_try(ip, frame, node):
    signal = None
    try:
        try:
            signal = block(ip, frame, node.body)
        except PyExc as py_exc:
            exc = py_exc.obj
            for handler in node.handlers:
                if handler_matches(ip, frame, handler, exc):
                    outer = frame.exc
                    frame.exc = exc
                    try:
                        if handler.name:
                            set_name(ip, frame, handler.name, exc)
                        signal = block(ip, frame, handler.body)
                    finally:
                        frame.exc = outer
                        if handler.name:
                            frame.locals.pop(handler.name, None)
                    break
            else:
                raise
        else:
            if signal is None:
                signal = block(ip, frame, node.orelse)
    except PyExc:
        if node.finalbody:
            final = block(ip, frame, node.finalbody)
            if final is not None:
                return final
        raise
    if node.finalbody:
        final = block(ip, frame, node.finalbody)
        if final is not None:
            return final
    return signal


def st_with(ip, frame, node, ix=0):
    """Context managers of the model only: entering gives the object, leaving never hides an exception"""
    if ix == len(node.items):
        return block(ip, frame, node.body)
    manager = ip.unwrap(ev(ip, frame, node.items[ix].context_expr))
    if not isinstance(manager, EObj) or not hasattr(manager, 'enter'):
        raise Unsupported('context manager')
    entered = manager.enter(ip)
    if node.items[ix].optional_vars is not None:
        assign(ip, frame, node.items[ix].optional_vars, entered)
    return st_with(ip, frame, node, ix + 1)


def st_delete(ip, frame, node):
    for target in node.targets:
        if isinstance(target, ast.Name):
            frame.locals.pop(target.id, None)
        elif isinstance(target, ast.Subscript):
            obj = ip.unwrap(ev(ip, frame, target.value))
            if not isinstance(obj, EObj):
                raise Unsupported('deletion from a host object')
            obj.delitem(ip, subscript_key(ip, frame, target.slice))
        else:
            unsupported(target)


def st_function(ip, frame, node):
    if node.decorator_list:
        raise Unsupported('decorated nested function')
    set_name(ip, frame, node.name, make_closure(ip, frame, node, node.name))


def make_closure(ip, frame, node, name):
    defaults = [ev(ip, frame, default) for default in node.args.defaults]
    kwdefaults = {arg.arg: ev(ip, frame, default) for arg, default in zip(node.args.kwonlyargs, node.args.kw_defaults) if default is not None}
    return Closure(node, frame.module_globals, frame, f'{frame.qualname}.{name}', defaults, kwdefaults)


def st_pass(ip, frame, node):
    return None


def st_assert(ip, frame, node):
    if not ip.truth(ev(ip, frame, node.test)):
        ip.raise_(AssertionError)


def st_import(ip, frame, node):
    import importlib
    if isinstance(node, ast.Import):
        for alias in node.names:
            if alias.asname is None and '.' in alias.name:
                raise Unsupported('import')
            set_name(ip, frame, alias.asname or alias.name, importlib.import_module(alias.name))
    else:
        package = frame.module_globals.get('__package__') if node.level else None
        mod = importlib.import_module(('.' * node.level) + (node.module or ''), package)
        for alias in node.names:
            set_name(ip, frame, alias.asname or alias.name, getattr(mod, alias.name))


STATEMENTS = {
    ast.Expr: st_expr, ast.Assign: st_assign, ast.AnnAssign: st_annassign, ast.AugAssign: st_augassign, ast.If: st_if, ast.While: st_while, ast.For: st_for,
    ast.Return: st_return, ast.Raise: st_raise, ast.Try: st_try, ast.Delete: st_delete, ast.FunctionDef: st_function, ast.Pass: st_pass, ast.Assert: st_assert,
    ast.Break: lambda ip, frame, node: ('break',), ast.Continue: lambda ip, frame, node: ('continue',), ast.Import: st_import, ast.ImportFrom: st_import,
    ast.Nonlocal: st_pass, ast.With: st_with
}


#
# Expressions
#


def ev(ip, frame, node):
    handler = EXPRESSIONS.get(type(node))
    if handler is None:
        return unsupported(node)
    return handler(ip, frame, node)


def ex_constant(ip, frame, node):
    return node.value


def ex_name(ip, frame, node):
    return frame.lookup(ip, node.id)


def ex_boolop(ip, frame, node):
    is_and = isinstance(node.op, ast.And)
    value = None
    for ix, operand in enumerate(node.values):
        value = ev(ip, frame, operand)
        if ix == len(node.values) - 1:
            return value
        # A symbolic boolean keeps its (now known) value
        flag = ip.truth(value)
        if flag != is_and:
            return flag if isinstance(value, SV) and value.k == 'bool' else value
    return value


def ex_binop(ip, frame, node):
    left = ev(ip, frame, node.left)
    right = ev(ip, frame, node.right)
    return models.binary(ip, type(node.op), left, right)


def ex_unaryop(ip, frame, node):
    value = ev(ip, frame, node.operand)
    if isinstance(node.op, ast.Not):
        if isinstance(value, SV) and value.k == 'bool':
            return mk_bool(z3.Not(value.t))
        return not ip.truth(value)
    return models.unary(ip, type(node.op), value)


def ex_compare(ip, frame, node):
    left = ev(ip, frame, node.left)
    result = True
    for ix, (op, comparator) in enumerate(zip(node.ops, node.comparators)):
        right = ev(ip, frame, comparator)
        result = models.compare(ip, type(op), left, right)
        if ix == len(node.ops) - 1:
            return result
        if not ip.truth(result):
            return False
        left = right
    return result


def ex_ifexp(ip, frame, node):
    return ev(ip, frame, node.body if ip.truth(ev(ip, frame, node.test)) else node.orelse)


def ex_attribute(ip, frame, node):
    return models.getattribute(ip, ev(ip, frame, node.value), node.attr)


def subscript_key(ip, frame, node):
    if isinstance(node, ast.Slice):
        return slice(*[ev(ip, frame, part) if part is not None else None for part in (node.lower, node.upper, node.step)])
    return ev(ip, frame, node)


def ex_subscript(ip, frame, node):
    obj = ev(ip, frame, node.value)
    key = subscript_key(ip, frame, node.slice)
    return models.getitem(ip, obj, key)


def ex_list(ip, frame, node):
    content = Lit([])
    from pyvc.engine import content_cat
    for element in node.elts:
        if isinstance(element, ast.Starred):
            content = content_cat(content, ip.list_content(ev(ip, frame, element.value)))
        else:
            content = content_cat(content, Lit([ev(ip, frame, element)]))
    return SList(ip, content)


def ex_tuple(ip, frame, node):
    items = []
    for element in node.elts:
        if isinstance(element, ast.Starred):
            value = ip.unwrap(ev(ip, frame, element.value))
            items.extend(models.concrete_items(ip, value))
        else:
            items.append(ev(ip, frame, element))
    return tuple(items)


def ex_dict(ip, frame, node):
    result = SDict(ip)
    for ix, (key, value) in enumerate(zip(node.keys, node.values)):
        if key is None:
            source = ip.unwrap(ev(ip, frame, value))
            if ix == 0 and isinstance(source, EObj) and hasattr(source, 'dict_copy'):
                result = source.dict_copy(ip)
            else:
                models.call_method(ip, result, 'update', [source], {})
        else:
            kv = ev(ip, frame, key)
            result.setitem(ip, kv, ev(ip, frame, value))
    return result


def ex_set(ip, frame, node):
    items = [ev(ip, frame, element) for element in node.elts]
    if all(not isinstance(item, (SV, EObj)) for item in items):
        return set(items)
    return models.SymSet(items)


def ex_call(ip, frame, node):
    fn = ev(ip, frame, node.func)
    args = []
    for arg in node.args:
        if isinstance(arg, ast.Starred):
            args.extend(models.concrete_items(ip, ip.unwrap(ev(ip, frame, arg.value))))
        else:
            args.append(ev(ip, frame, arg))
    kwargs = {}
    for keyword in node.keywords:
        value = ev(ip, frame, keyword.value)
        if keyword.arg is None:
            value = ip.unwrap(value)
            items = value.concrete() if isinstance(value, SDict) else (value if isinstance(value, dict) else None)
            if items is None:
                raise Unsupported('** of a symbolic dict')
            kwargs.update(items)
        else:
            kwargs[keyword.arg] = value
    if fn is super:
        return super_of(frame, args)
    return ip.call(fn, args, kwargs)


class Super(EObj):
    """super() in a method of an exception class"""

    def __init__(self, obj, cls):
        self.obj = obj
        self.cls = cls

    def getattr(self, ip, name):
        if name != '__init__' or not isinstance(self.obj, ExcObj):
            raise Unsupported(f'super().{name}')
        return models.Model(self.init)

    def init(self, ip, args, kwargs):
        mro = self.obj.cls.__mro__
        for base in mro[mro.index(self.cls) + 1:]:
            if '__init__' in vars(base):
                if interpretable(base.__init__):
                    return ip.call_closure(ip.closure_of(base.__init__), [self.obj] + list(args), kwargs)
                break
        self.obj.args = list(args)
        return None


def super_of(frame, args):
    while frame.parent is not None:
        frame = frame.parent
    if args or '.' not in frame.qualname or not frame.node.args.args:
        raise Unsupported('super with arguments')
    return Super(frame.locals[frame.node.args.args[0].arg], frame.module_globals[frame.qualname.split('.')[0]])


def comp_frame(frame, node):
    names = set()
    for generator in node.generators:
        for child in ast.walk(generator.target):
            if isinstance(child, ast.Name):
                names.add(child.id)
    return Frame(frame.module_globals, frame, frame.qualname, names)


def comp_elements(ip, frame, generators, emit, first=None):
    """Evaluate emit(frame) for every element (concrete iteration), lazily"""
    if not generators:
        yield emit(frame)
        return
    generator = generators[0]
    iterable = first if first is not None else ip.unwrap(ev(ip, frame, generator.iter))
    for element in models.iterate(ip, iterable):
        assign(ip, frame, generator.target, element)
        if all(ip.truth(ev(ip, frame, cond)) for cond in generator.ifs):
            yield from comp_elements(ip, frame, generators[1:], emit)


def is_symbolic_space(ip, iterable):
    if isinstance(iterable, (SpaceIter, GenExp)):
        return True
    if isinstance(iterable, SList):
        return not isinstance(iterable.content, Lit)
    if isinstance(iterable, SDict):
        return iterable.concrete() is None
    if isinstance(iterable, SV):
        return True
    if isinstance(iterable, EObj) and not isinstance(iterable, (LazyIter,)):
        spc = models.space_of(ip, iterable)
        return not isinstance(spc.n, int)
    return False


def comp_loop(ip, frame, node, iterable):
    """A filtered comprehension as the loop that appends to a new list, by the contract of the loop"""
    generator = node.generators[0]
    if len(node.generators) != 1 or frame.qualname not in ip.loop_contracts and '*' not in ip.loop_contracts:
        return None
    inner = comp_frame(frame, node)
    name = '.comprehension'
    inner.locals[name] = SList(ip, Lit([]))
    inner.result_name = name
    body = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id=name, ctx=ast.Load()), attr='append', ctx=ast.Load()), args=[node.elt], keywords=[]))
    for test in reversed(generator.ifs):
        body = ast.If(test=test, body=[body], orelse=[])
    loop = ast.For(target=generator.target, iter=generator.iter, body=[body], orelse=[])
    for child in ast.walk(loop):
        if not hasattr(child, 'lineno'):
            ast.copy_location(child, node)
    target = inner.locals[name]
    result = loop_contract(ip, inner, loop, models.space_of(ip, iterable))
    if result is NotImplemented:
        return None
    return target


def symbolic_comp(ip, frame, node, iterable):
    """[f(x) for x in symbolic]: the mapped sequence (f must be pure and total on the elements; filters need a contract)"""
    if len(node.generators) != 1 or node.generators[0].ifs:
        contract = ip.loop_contracts.get(frame.qualname + ':comp')
        if contract is not None:
            return contract(ip, frame, node, iterable)
        looped = comp_loop(ip, frame, node, iterable)
        if looped is not None:
            return looped.content
        raise Unsupported('filtered comprehension over a symbolic sequence')
    contract = ip.loop_contracts.get(frame.qualname + ':comp')
    if contract is not None:
        result = contract(ip, frame, node, iterable)
        if result is not NotImplemented:
            return result
    spc = models.space_of(ip, iterable)
    generator = node.generators[0]
    world = ip.world

    def element(ip2, k):
        inner = comp_frame(frame, node)
        assign(ip2, inner, generator.target, spc.at(ip2, k))
        value = ev(ip2, inner, node.elt)
        if ip2.world is not world:
            raise Unsupported('effect inside a comprehension over a symbolic sequence')
        return value

    total_element(ip, spc.n, element)
    return MapC(spc.n, element)


def total_element(ip, n, element):
    """An exception of the first element that raises escapes; otherwise no element raises"""
    if isinstance(n, int):
        return

    def raises(sub, k):
        depth = sub.depth
        try:
            element(sub, k)
            return False
        except PyExc:
            sub.depth = depth
            return True

    try:
        k = ip.first_match(n, raises)
    except Unsupported:
        # One generic element: covers every exception, but forgets that the others do not raise
        if ip.branch(simp(n > 0)):
            k = ip.fresh('int', 'k')
            ip.assume(z3.And(k.t >= 0, k.t < n))
            element(ip, k.t)
        return
    if k is not None:
        element(ip, k)
        raise PathEnd()


def ex_listcomp(ip, frame, node):
    inner = comp_frame(frame, node)
    iterable = ip.unwrap(ev(ip, frame, node.generators[0].iter))
    if is_symbolic_space(ip, iterable):
        if node.generators[0].ifs and frame.qualname + ':comp' not in ip.loop_contracts:
            looped = comp_loop(ip, frame, node, iterable)
            if looped is not None:
                return looped
        return SList(ip, symbolic_comp(ip, frame, node, iterable))
    return SList(ip, Lit(comp_elements(ip, inner, node.generators, lambda frm: ev(ip, frm, node.elt), iterable)))


def ex_genexp(ip, frame, node):
    inner = comp_frame(frame, node)
    iterable = ip.unwrap(ev(ip, frame, node.generators[0].iter))
    if is_symbolic_space(ip, iterable):
        return GenExp(node, frame, iterable)
    result = LazyIter(comp_elements(ip, inner, node.generators, lambda frm: ev(ip, frm, node.elt), iterable))
    result.source = (frame, node, iterable)
    return result


def ex_dictcomp(ip, frame, node):
    inner = comp_frame(frame, node)
    iterable = ip.unwrap(ev(ip, frame, node.generators[0].iter))
    if is_symbolic_space(ip, iterable):
        raise Unsupported('dict comprehension over a symbolic sequence')
    result = SDict(ip)
    for key, value in comp_elements(ip, inner, node.generators, lambda frm: (ev(ip, frm, node.key), ev(ip, frm, node.value)), iterable):
        result.setitem(ip, key, value)
    return result


def ex_setcomp(ip, frame, node):
    inner = comp_frame(frame, node)
    iterable = ip.unwrap(ev(ip, frame, node.generators[0].iter))
    if is_symbolic_space(ip, iterable):
        raise Unsupported('set comprehension over a symbolic sequence')
    items = list(comp_elements(ip, inner, node.generators, lambda frm: ev(ip, frm, node.elt), iterable))
    if all(not isinstance(item, (SV, EObj)) for item in items):
        return set(items)
    return models.SymSet(items)


def ex_lambda(ip, frame, node):
    return make_closure(ip, frame, node, '<lambda>')


def ex_joinedstr(ip, frame, node):
    result = ''
    for part in node.values:
        if isinstance(part, ast.Constant):
            text = part.value
        else:
            value = ev(ip, frame, part.value)
            spec = ev(ip, frame, part.format_spec) if part.format_spec is not None else ''
            text = models.format_value(ip, value, part.conversion, spec)
        result = models.binary(ip, ast.Add, result, text)
    return result


def ex_namedexpr(ip, frame, node):
    value = ev(ip, frame, node.value)
    owner = frame
    # A comprehension's walrus binds in the enclosing function
    set_name(ip, owner, node.target.id, value)
    return value


EXPRESSIONS = {
    ast.Constant: ex_constant, ast.Name: ex_name, ast.BoolOp: ex_boolop, ast.BinOp: ex_binop, ast.UnaryOp: ex_unaryop, ast.Compare: ex_compare,
    ast.IfExp: ex_ifexp, ast.Attribute: ex_attribute, ast.Subscript: ex_subscript, ast.List: ex_list, ast.Tuple: ex_tuple, ast.Dict: ex_dict, ast.Set: ex_set,
    ast.Call: ex_call, ast.ListComp: ex_listcomp, ast.GeneratorExp: ex_genexp, ast.DictComp: ex_dictcomp, ast.SetComp: ex_setcomp, ast.Lambda: ex_lambda,
    ast.JoinedStr: ex_joinedstr, ast.NamedExpr: ex_namedexpr
}
