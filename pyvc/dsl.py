"""Obligations: registry and the claims they make"""

import z3

from pyvc.engine import Base, Cat, EObj, ExcObj, Lit, Opaque, PyExc, SDict, SList, Slice, SV, Unsupported, Upd, ival, num_term, to_real
from pyvc.models import TimeDelta
from pyvc.terms import SCRIPT_KINDS, V

REGISTRY = []


class Obligation:
    def __init__(self, name, props, functions, fn, limit_s, max_paths, tier, prove_ms):
        self.name = name
        self.props = props
        self.functions = functions
        self.fn = fn
        self.limit_s = limit_s
        self.max_paths = max_paths
        self.tier = tier
        self.prove_ms = prove_ms
        self.replay = None


def obligation(name, props, functions, limit_s=60, max_paths=20000, tier='quick', prove_ms=10000):
    """Register an obligation: a function of the interpreter that sets up symbolic inputs, calls the functions under contract and makes claims"""
    def decorate(fn):
        REGISTRY.append(Obligation(name, props if isinstance(props, (list, tuple)) else [props], functions, fn, limit_s, max_paths, tier, prove_ms))
        return fn
    return decorate


class Outcome:
    """How a call ended: a value, or an exception"""

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    def unwrap(self):
        if self.exc is not None:
            raise PyExc(self.exc)
        return self.value


def outcome(ip, fn, *args, **kwargs):
    depth = ip.depth
    try:
        return Outcome(ip.call(fn, list(args), kwargs))
    except PyExc as exc:
        ip.depth = depth
        return Outcome(None, exc.obj)


def same_scalar(ip, a, b, numeric=False):
    """A condition: a and b are the same value (numeric: int and float spellings of a number are the same)"""
    if a is b:
        return True
    if numeric:
        a, b = ip.unwrap(a), ip.unwrap(b)
        na, nb = num_term(a), num_term(b)
        is_bool_a = isinstance(a, bool) or isinstance(a, SV) and a.k == 'bool'
        is_bool_b = isinstance(b, bool) or isinstance(b, SV) and b.k == 'bool'
        if na is not None and nb is not None and not is_bool_a and not is_bool_b:
            return to_real(na) == to_real(nb)
    return ip.to_v(a) == ip.to_v(b)


def prove_same(ip, a, b, what, numeric=False, depth=0):
    """Claim: the same value (fresh containers are compared by content, input containers by identity)"""
    if depth > 20:
        raise Unsupported('nesting of compared values')
    if a is b:
        ip.prove(True, what)
        return
    if isinstance(a, tuple) and isinstance(b, tuple):
        ip.prove(len(a) == len(b), f'{what}: same length')
        for ix, (x, y) in enumerate(zip(a, b)):
            prove_same(ip, x, y, f'{what}[{ix}]', numeric, depth + 1)
        return
    if isinstance(a, SV) and a.k == 'val' and isinstance(b, EObj) or isinstance(b, SV) and b.k == 'val' and isinstance(a, EObj):
        a, b = ip.unwrap(a), ip.unwrap(b)
        if a is b:
            ip.prove(True, what)
            return
    if isinstance(a, SList) and isinstance(b, SList):
        if is_input(a) or is_input(b):
            ip.prove(ip.to_v(a) == ip.to_v(b), f'{what}: the same list')
            return
        prove_same_content(ip, a.content, b.content, what, numeric, depth)
        return
    if isinstance(a, SDict) and isinstance(b, SDict):
        if is_input(a) or is_input(b):
            ip.prove(ip.to_v(a) == ip.to_v(b), f'{what}: the same object')
            return
        prove_same_dict(ip, a, b, what, numeric, depth)
        return
    if isinstance(a, ExcObj) and isinstance(b, ExcObj):
        ip.prove(a.cls is b.cls, f'{what}: the same exception class ({a.cls.__name__}, {b.cls.__name__})')
        return
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        ip.prove(a.t.sort() == b.t.sort() and a.t == b.t, what)
        return
    if isinstance(a, TimeDelta) and isinstance(b, TimeDelta):
        ip.prove(a.t == b.t, what)
        return
    if isinstance(a, EObj) and not isinstance(b, (EObj, SV)) or isinstance(b, EObj) and not isinstance(a, (EObj, SV)):
        if isinstance(a, (SList, SDict)) and isinstance(b, (list, dict)) or isinstance(b, (SList, SDict)) and isinstance(a, (list, dict)):
            from pyvc.models import lift
            a2 = a if isinstance(a, EObj) else lift(ip, a)
            b2 = b if isinstance(b, EObj) else lift(ip, b)
            prove_same(ip, a2, b2, what, numeric, depth + 1)
            return
    ip.prove(same_scalar(ip, a, b, numeric), what)


def is_input(obj):
    return obj.ref is not None and not z3.is_int_value(obj.ref)


def prove_same_content(ip, a, b, what, numeric=False, depth=0):
    """Claim: equal sequences (equal length, and equal at every index)"""
    na, nb = a.n, b.n
    if isinstance(na, int) and isinstance(nb, int):
        ip.prove(na == nb, f'{what}: same length ({na}, {nb})')
        if na != nb:
            return
        for k in range(na):
            prove_same(ip, a.at(ip, k), b.at(ip, k), f'{what}[{k}]', numeric, depth + 1)
        return
    if isinstance(a, Base) and isinstance(b, Base) and a.t.eq(b.t):
        ip.prove(True, what)
        return
    ip.prove(ival(na) == ival(nb), f'{what}: same length')
    # Extensionality: a generic index
    if ip.branch(ival(na) > 0):
        k = ip.fresh('int', 'k')
        ip.assume(z3.And(k.t >= 0, k.t < ival(na)))
        prove_same(ip, a.at(ip, k.t), b.at(ip, k.t), f'{what}[k]', numeric, depth + 1)


def prove_same_dict(ip, a, b, what, numeric=False, depth=0):
    ia, ib = a.concrete(), b.concrete()
    if ia is not None and ib is not None:
        ip.prove(list(ia) == list(ib), f'{what}: same keys ({list(ia)}, {list(ib)})')
        for key in ia:
            if key in ib:
                prove_same(ip, ia[key], ib[key], f'{what}[{key!r}]', numeric, depth + 1)
        return
    if (a.base is None) == (b.base is None) and len(a.writes) == len(b.writes) and (a.base is None or a.base.eq(b.base)):
        for (ka, va), (kb, vb) in zip(a.writes, b.writes):
            prove_same(ip, ka, kb, f'{what}: written key', numeric, depth + 1)
            from pyvc.engine import _TOMB
            if va is _TOMB or vb is _TOMB:
                ip.prove(va is vb, f'{what}: deletion')
            else:
                prove_same(ip, va, vb, f'{what}: written value', numeric, depth + 1)
        return
    ip.prove(a.term(ip) == b.term(ip), f'{what}: same content')


def value(ip, name, kinds=None):
    """A symbolic script value"""
    return ip.input('val', name, kinds if kinds is not None else SCRIPT_KINDS)


def array(ip, name):
    """A symbolic array of the input, as a list object"""
    return ip.unwrap(value(ip, name, frozenset(['list'])))


def func_or_none(module, name):
    """A function of the package, by name (None if the tree does not have it)"""
    return getattr(module, name, None)


def tail_loop(ip, frame, node, spc, summary, unfold, claim):
    """A loop contract in tail form: summary(k) is the result of the loop from iteration k on, so an iteration either ends the function with
    summary(k) or leaves summary(k) = summary(k + 1); after the last iteration summary(0) = summary(n).

    unfold(k) assumes the definition of summary at k; claim(k, value) is the condition that the value is summary(k).
    The loop carries no state (its locals are forgotten at the start of a generic iteration).
    """
    from pyvc import interp
    from pyvc.engine import PathEnd
    n = spc.n
    if ip.pick(['iteration', 'exit']) == 'iteration':
        k = ip.fresh('int', 'k').t
        ip.assume(z3.And(k >= 0, k < ival(n)))
        unfold(k)
        forget_assigned(frame, node)
        interp.assign(ip, frame, node.target, spc.at(ip, k))
        try:
            signal = interp.block(ip, frame, node.body)
        except PyExc as exc:
            ip.prove(False, f'loop iteration raises {exc.obj.cls.__name__}')
            raise PathEnd() from exc
        if signal is not None and signal[0] == 'return':
            ip.prove(claim(k, signal[1]), 'the result of a loop iteration')
        elif signal is None or signal[0] == 'continue':
            ip.prove(summary(k) == summary(k + 1), 'a loop iteration preserves the result')
        else:
            raise Unsupported('break in a loop with a tail contract')
        raise PathEnd()
    ip.assume(summary(z3.IntVal(0)) == summary(ival(n)))
    unfold(ival(n))
    forget_assigned(frame, node)
    return interp.block(ip, frame, node.orelse)


def forget_assigned(frame, node):
    """Forget the locals that the loop assigns"""
    import ast
    for child in ast.walk(node):
        if isinstance(child, ast.Name) and isinstance(child.ctx, ast.Store):
            frame.locals.pop(child.id, None)


def inline(ip, fn, *args):
    """The outcome of a function executed from its source, whatever contract its recursive calls have"""
    depth = ip.depth
    try:
        return Outcome(ip.call_closure(ip.closure_of(fn), list(args), {}))
    except PyExc as exc:
        ip.depth = depth
        return Outcome(None, exc.obj)


def int_term(x):
    """The integer term of a number"""
    return num_term(x)
