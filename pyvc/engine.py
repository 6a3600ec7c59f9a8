"""pyvc: a verification-condition generator for a subset of Python.

The functions of /repo/src/bare_script are read from their current source text (the module files that the imported modules were loaded from) and executed
symbolically, path by path, over the vocabulary of terms.py. A path is a list of decisions; it is re-executed from the start for every new decision list. Branch
conditions are kept in a z3 solver, infeasible branches are cut, and every ip.prove(...) on a path is a verification condition: path condition => claim.

Calls of functions of the package are executed from their source (inlined) unless the obligation gives a contract for the callee; loops over symbolic
sequences need a loop contract; anything outside the subset raises Unsupported, which makes the obligation undecided - never discharged.
"""

import ast
import builtins
import copy
import functools
import os
import sys
import time

import z3

from pyvc.terms import ALL, KINDS, RECOGNIZERS, STR_RANK, V, Content, DContent, func


class Unsupported(Exception):
    """Outside the verified subset"""


class PathEnd(Exception):
    """The path is finished (its claims were made) or infeasible"""


class PyExc(Exception):
    """An exception of the interpreted program"""

    def __init__(self, obj):
        super().__init__(obj)
        self.obj = obj


#
# Values: raw Python objects, typed symbolic scalars (SV), and engine objects (EObj)
#


class SV:
    """A symbolic scalar: k is 'bool', 'int', 'real', 'str' or 'val'"""

    __slots__ = ('k', 't')

    def __init__(self, k, t):
        self.k = k
        self.t = t

    def __repr__(self):
        return f'SV({self.k}, {self.t})'

    def __bool__(self):
        raise AssertionError('host truth value of a symbolic value')

    __hash__ = object.__hash__


class EObj:
    """An engine object"""

    py_class = object

    def getattr(self, ip, name):
        raise Unsupported(f'attribute {name} of {type(self).__name__}')

    def setattr(self, ip, name, value):
        raise Unsupported(f'attribute assignment {name} of {type(self).__name__}')

    def call(self, ip, args, kwargs):
        raise Unsupported(f'call of {type(self).__name__}')

    def truth(self, ip):
        return True

    def getitem(self, ip, key):
        raise Unsupported(f'subscript of {type(self).__name__}')

    def setitem(self, ip, key, value):
        raise Unsupported(f'item assignment of {type(self).__name__}')

    def delitem(self, ip, key):
        raise Unsupported(f'item deletion of {type(self).__name__}')

    def contains(self, ip, item):
        raise Unsupported(f'membership in {type(self).__name__}')

    def length(self, ip):
        raise Unsupported(f'length of {type(self).__name__}')

    def space(self, ip):
        raise Unsupported(f'iteration over {type(self).__name__}')

    def to_v(self, ip):
        raise Unsupported(f'{type(self).__name__} as a value')


class Space:
    """An iteration space: n elements (int or z3 Int), at(ip, k) the k-th"""

    def __init__(self, n, at):
        self.n = n
        self.at = at


class LazyIter(EObj):
    """An iterator over a Python generator of engine values (a concrete sequence of elements)"""

    def __init__(self, gen):
        self.gen = gen
        self.source = None


class SpaceIter(EObj):
    """An iterator over a symbolic space, not yet advanced"""

    def __init__(self, spc):
        self.spc = spc

    def space(self, ip):
        return self.spc


class GenExp(EObj):
    """A generator expression over a symbolic space (evaluated by its consumer)"""

    def __init__(self, node, frame, spc):
        self.node = node
        self.frame = frame
        self.spc = spc


class Bound(EObj):
    """A bound method of an engine value"""

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def call(self, ip, args, kwargs):
        from pyvc import models
        return models.call_method(ip, self.obj, self.name, args, kwargs)


class Model(EObj):
    """A callable implemented by the engine"""

    def __init__(self, fn, term=None):
        self.fn = fn
        self.term = term

    def call(self, ip, args, kwargs):
        return self.fn(ip, args, kwargs)

    def to_v(self, ip):
        if self.term is None:
            self.term = ip.fresh('int', 'fnref').t
        return V.fn(self.term)


class Partial(EObj):
    def __init__(self, fn, args, kwargs):
        self.fn = fn
        self.args = args
        self.kwargs = kwargs
        self.ref = None

    def call(self, ip, args, kwargs):
        return ip.call(self.fn, list(self.args) + list(args), {**self.kwargs, **kwargs})

    def to_v(self, ip):
        if self.ref is None:
            self.ref = ip.fresh('int', 'partial').t
        return V.fn(self.ref)


class Closure(EObj):
    """An interpreted function"""

    def __init__(self, node, module_globals, parent, qualname, defaults, kwdefaults):
        self.node = node
        self.module_globals = module_globals
        self.parent = parent
        self.qualname = qualname
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.ref = None

    def call(self, ip, args, kwargs):
        return ip.call_closure(self, args, kwargs)

    def to_v(self, ip):
        if self.ref is None:
            self.ref = ip.fresh('int', 'closure').t
        return V.fn(self.ref)


class ExcObj(EObj):
    """An exception value"""

    def __init__(self, cls, args, attrs=None):
        self.cls = cls
        self.args = args
        self.attrs = attrs or {}

    def getattr(self, ip, name):
        if name in self.attrs:
            return self.attrs[name]
        if name == 'args':
            return tuple(self.args)
        raise Unsupported(f'attribute {name} of exception {self.cls.__name__}')

    def setattr(self, ip, name, value):
        self.attrs[name] = value


class Opaque(EObj):
    """An opaque immutable object named by a term"""

    def __init__(self, name, t):
        self.name = name
        self.t = t

    def truth(self, ip):
        return True


class Rec(EObj):
    """A host object with symbolic attributes (e.g. self of an interpreted __init__)"""

    def __init__(self, cls, attrs):
        self.cls = cls
        self.attrs = attrs

    def getattr(self, ip, name):
        if name in self.attrs:
            return self.attrs[name]
        raise Unsupported(f'attribute {name} of {self.cls.__name__}')

    def setattr(self, ip, name, value):
        self.attrs[name] = value


#
# List contents - immutable views with a length and an element function
#

CLEN = z3.Function('c_len', Content, z3.IntSort())
CAT = z3.Function('c_at', Content, z3.IntSort(), V)
CNIL = z3.Const('c_nil', Content)
CCONS = z3.Function('c_cons', V, Content, Content)
CCAT = z3.Function('c_cat', Content, Content, Content)
CSLICE = z3.Function('c_slice', Content, z3.IntSort(), z3.IntSort(), Content)
CUPD = z3.Function('c_upd', Content, z3.IntSort(), V, Content)


class Lit:
    def __init__(self, items):
        self.items = list(items)

    @property
    def n(self):
        return len(self.items)

    def at(self, ip, k):
        if isinstance(k, int):
            return self.items[k]
        for ix in range(len(self.items) - 1):
            if ip.branch(k == ix):
                return self.items[ix]
        if not self.items:
            raise PathEnd()
        ip.assume(k == len(self.items) - 1)
        return self.items[-1]

    def term(self, ip):
        t = CNIL
        for item in reversed(self.items):
            t = CCONS(ip.to_v(item), t)
        return t


class Base:
    def __init__(self, ip, t, kinds=None, fact=None):
        self.t = t
        self.n = CLEN(t)
        self.kinds = kinds
        self.fact = fact
        ip.assume(self.n >= 0)

    def at(self, ip, k):
        sv = SV('val', CAT(self.t, k if not isinstance(k, int) else z3.IntVal(k)))
        if self.kinds is not None and sv.t.get_id() not in ip.kinds:
            ip.set_kinds(sv, self.kinds)
        if self.fact is not None:
            ip.assume(self.fact(sv.t))
        return sv

    def term(self, ip):
        return self.t


class Slice:
    def __init__(self, c, lo, hi):
        self.c = c
        self.lo = lo
        self.hi = hi
        self.n = simp(hi - lo)

    def at(self, ip, k):
        return self.c.at(ip, simp(self.lo + k))

    def term(self, ip):
        if isinstance(self.lo, int) and self.lo == 0 and same(self.hi, self.c.n):
            return self.c.term(ip)
        return CSLICE(self.c.term(ip), ival(self.lo), ival(self.hi))


class Cat:
    def __init__(self, left, right):
        self.left = left
        self.right = right
        self.n = simp(left.n + right.n)

    def at(self, ip, k):
        n = self.left.n
        inside = (k < n) if isinstance(k, int) and isinstance(n, int) else ip.branch(simp(k < n))
        return self.left.at(ip, k) if inside else self.right.at(ip, simp(k - n))

    def term(self, ip):
        if isinstance(self.left, Lit):
            t = self.right.term(ip)
            for item in reversed(self.left.items):
                t = CCONS(ip.to_v(item), t)
            return t
        if isinstance(self.right.n, int) and self.right.n == 0:
            return self.left.term(ip)
        return CCAT(self.left.term(ip), self.right.term(ip))


class Upd:
    def __init__(self, c, ix, value):
        self.c = c
        self.ix = ix
        self.value = value
        self.n = c.n

    def at(self, ip, k):
        hit = (k == self.ix) if isinstance(k, int) and isinstance(self.ix, int) else ip.branch(simp(ival(k) == self.ix))
        return self.value if hit else self.c.at(ip, k)

    def term(self, ip):
        return CUPD(self.c.term(ip), ival(self.ix), ip.to_v(self.value))


class MapC:
    """The elements fn(ip, k), k < n (fn is pure)"""

    def __init__(self, n, fn, term=None):
        self.n = n
        self.fn = fn
        self.t = term

    def at(self, ip, k):
        return self.fn(ip, k)

    def term(self, ip):
        if self.t is None:
            raise Unsupported('term of a mapped sequence')
        return self.t


def content_cat(left, right):
    if isinstance(left.n, int) and left.n == 0:
        return right
    if isinstance(right.n, int) and right.n == 0:
        return left
    if isinstance(left, Lit) and isinstance(right, Lit):
        return Lit(left.items + right.items)
    if isinstance(right, Cat) and isinstance(left, Lit) and isinstance(right.left, Lit):
        return Cat(Lit(left.items + right.left.items), right.right)
    if isinstance(left, Cat) and isinstance(left.right, Lit) and isinstance(right, Lit):
        return Cat(left.left, Lit(left.right.items + right.items))
    return Cat(left, right)


def content_slice(ip, c, lo, hi):
    """c[lo:hi] with 0 <= lo <= hi <= n already established"""
    if isinstance(lo, int) and isinstance(hi, int):
        if isinstance(c, Lit):
            return Lit(c.items[lo:hi])
        if lo == hi:
            return Lit([])
    if isinstance(lo, int) and lo == 0 and same(hi, c.n):
        return c
    if isinstance(c, Cat) and isinstance(lo, int) and isinstance(c.left.n, int):
        if lo >= c.left.n:
            return content_slice(ip, c.right, lo - c.left.n, simp(hi - c.left.n))
        if same(hi, c.n):
            return content_cat(content_slice(ip, c.left, lo, c.left.n), c.right)
        if isinstance(hi, int) and hi <= c.left.n:
            return content_slice(ip, c.left, lo, hi)
    if isinstance(c, Cat) and isinstance(lo, int) and lo == 0 and isinstance(c.right, Lit):
        kept = simp(hi - c.left.n)
        if isinstance(kept, int) and 0 <= kept <= c.right.n:
            return content_cat(c.left, Lit(c.right.items[:kept]))
    if isinstance(c, Slice):
        return Slice(c.c, simp(c.lo + lo), simp(c.lo + hi))
    return Slice(c, lo, hi)


def ival(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def simp(x):
    if isinstance(x, (bool, int)):
        return x
    x = z3.simplify(x)
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def same(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    if isinstance(x, int) or isinstance(y, int):
        x, y = ival(x), ival(y)
    return z3.simplify(x - y).eq(z3.IntVal(0))


class SList(EObj):
    py_class = list

    def __init__(self, ip, content, ref=None, what='list'):
        self.content = content
        self.ref = ref
        self.what = what
        ip.lists.append(self)

    def truth(self, ip):
        n = self.content.n
        return n != 0 if isinstance(n, int) else ip.branch(n != 0)

    def length(self, ip):
        n = self.content.n
        return n if isinstance(n, int) else SV('int', n)

    def space(self, ip):
        content = self.content
        return Space(content.n, content.at)

    def getattr(self, ip, name):
        return Bound(self, name)

    def index(self, ip, key):
        """A valid index (Python's rule for negative indexes), or IndexError"""
        k = ip.int_of(key)
        n = self.content.n
        if isinstance(k, int) and isinstance(n, int):
            if 0 <= k < n:
                return k
            if -n <= k < 0:
                return k + n
            ip.raise_(IndexError, 'list index out of range')
        if ip.branch(z3.And(k >= 0, k < n)):
            return simp(ival(k))
        if ip.branch(z3.And(k < 0, k >= -n)):
            return simp(k + n)
        return ip.raise_(IndexError, 'list index out of range')

    def bounds(self, ip, key):
        return slice_bounds(ip, key, self.content.n)

    def getitem(self, ip, key):
        if isinstance(key, slice):
            lo, hi = self.bounds(ip, key)
            return SList(ip, content_slice(ip, self.content, lo, hi), what='slice')
        return self.content.at(ip, self.index(ip, key))

    def setitem(self, ip, key, value):
        if isinstance(key, slice):
            lo, hi = self.bounds(ip, key)
            new = ip.list_content(value)
            self.content = content_cat(content_cat(content_slice(ip, self.content, 0, lo), new), content_slice(ip, self.content, hi, self.content.n))
            return
        k = self.index(ip, key)
        if isinstance(self.content, Lit) and isinstance(k, int):
            items = list(self.content.items)
            items[k] = value
            self.content = Lit(items)
        elif isinstance(self.content, Cat) and isinstance(self.content.left, Lit) and isinstance(k, int) and k < self.content.left.n:
            items = list(self.content.left.items)
            items[k] = value
            self.content = Cat(Lit(items), self.content.right)
        else:
            self.content = Upd(self.content, k, value)

    def delitem(self, ip, key):
        if isinstance(key, slice):
            lo, hi = self.bounds(ip, key)
            if isinstance(lo, int) and same(hi, self.content.n) and isinstance(self.content, (Cat, Lit)):
                self.content = content_slice(ip, self.content, 0, lo)
                return
            self.content = content_cat(content_slice(ip, self.content, 0, lo), content_slice(ip, self.content, hi, self.content.n))
            return
        k = self.index(ip, key)
        self.content = content_cat(content_slice(ip, self.content, 0, k), content_slice(ip, self.content, simp(k + 1), self.content.n))

    def contains(self, ip, item):
        if isinstance(self.content, Lit):
            for element in self.content.items:
                if ip.truth(ip.py_eq(item, element)):
                    return True
            return False
        raise Unsupported('membership in a symbolic list')

    def to_v(self, ip):
        if self.ref is None:
            self.ref = ip.new_ref()
        return V.list(self.ref)


def slice_bounds(ip, key, n):
    """0 <= lo <= hi <= n of a slice (Python's clamping)"""
    if key.step is not None:
        raise Unsupported('slice step')

    def clamp(x, default):
        if x is None:
            return default
        k = ip.int_of(x)
        if isinstance(k, int) and isinstance(n, int):
            return max(0, k + n) if k < 0 else min(k, n)
        if ip.branch(simp(ival(k) < 0)):
            if ip.branch(simp(k + n < 0)):
                return 0
            return simp(k + n)
        if ip.branch(simp(ival(k) > n)):
            return n
        return simp(ival(k))

    lo = clamp(key.start, 0)
    hi = clamp(key.stop, n)
    if isinstance(lo, int) and isinstance(hi, int):
        return lo, max(lo, hi)
    if ip.branch(simp(ival(lo) > hi)):
        return lo, lo
    return lo, hi


#
# Dicts
#

DHAS = z3.Function('d_has', DContent, V, z3.BoolSort())
DGET = z3.Function('d_get', DContent, V, V)
DNIL = z3.Const('d_nil', DContent)
DSET = z3.Function('d_set', DContent, V, V, DContent)
DDEL = z3.Function('d_del', DContent, V, DContent)
DKEYS = z3.Function('d_keys', DContent, Content)
DLEN = z3.Function('d_len', DContent, z3.IntSort())
_TOMB = object()


class SDict(EObj):
    """A dict: an opaque base content (or empty) and the writes since, oldest first"""

    py_class = dict

    def __init__(self, ip, base=None, writes=(), ref=None, kinds=None, what='dict'):
        self.base = base
        self.writes = list(writes)
        self.ref = ref
        self.kinds = kinds
        self.what = what
        self.fact = None      # the keys of the base: key term -> condition (an invariant of an obligation)
        ip.dicts.append(self)

    def clone(self, ip):
        copy = SDict(ip, self.base, self.writes, None, self.kinds, 'copy')
        copy.fact = self.fact
        return copy

    def lookup(self, ip, key):
        """(found, value)"""
        for wkey, wvalue in reversed(self.writes):
            if ip.truth(ip.py_eq(key, wkey)):
                return (False, None) if wvalue is _TOMB else (True, wvalue)
        if self.base is None:
            return False, None
        kt = ip.to_v(key)
        if self.fact is not None:
            ip.assume(DHAS(self.base, kt) == self.fact(kt))
        if ip.branch(DHAS(self.base, kt)):
            sv = SV('val', DGET(self.base, kt))
            if self.kinds is not None and sv.t.get_id() not in ip.kinds:
                ip.set_kinds(sv, self.kinds)
            return True, sv
        return False, None

    def truth(self, ip):
        n = self.length(ip)
        return n != 0 if isinstance(n, int) else ip.branch(n.t != 0)

    def concrete(self):
        """The items if the keys are concrete and the base is empty, else None"""
        if self.base is not None or not all(isinstance(key, (str, int, float, bool, tuple, type(None))) for key, _ in self.writes):
            return None
        items = {}
        for key, value in self.writes:
            if value is _TOMB:
                items.pop(key, None)
            else:
                items[key] = value
        return items

    def length(self, ip):
        items = self.concrete()
        if items is not None:
            return len(items)
        t = DLEN(self.term(ip))
        ip.assume(t >= 0)
        return SV('int', t)

    def term(self, ip):
        """The content as a term (normalised: a write that a later write of the same key supersedes in place keeps only its position)"""
        t = DNIL if self.base is None else self.base
        for key, value in self.writes:
            t = DDEL(t, ip.to_v(key)) if value is _TOMB else DSET(t, ip.to_v(key), ip.to_v(value))
        return t

    def keys_content(self, ip):
        items = self.concrete()
        if items is not None:
            return Lit(items.keys())
        t = self.term(ip)
        content = Base(ip, DKEYS(t), frozenset(['str']), None if self.writes else lambda key: DHAS(t, key))
        ip.assume(content.n == DLEN(t))
        return content

    def space(self, ip):
        content = self.keys_content(ip)
        return Space(content.n, content.at)

    def getattr(self, ip, name):
        return Bound(self, name)

    def getitem(self, ip, key):
        found, value = self.lookup(ip, key)
        if not found:
            ip.raise_(KeyError, key)
        return value

    def setitem(self, ip, key, value):
        if isinstance(key, (SList, SDict)):
            ip.raise_(TypeError, 'unhashable')
        if self.base is None or not self.writes:
            for ix, (wkey, wvalue) in enumerate(self.writes):
                if wvalue is not _TOMB and isinstance(wkey, str) and isinstance(key, str) and wkey == key:
                    self.writes = list(self.writes)
                    self.writes[ix] = (wkey, value)
                    return
        self.writes = self.writes + [(key, value)]

    def delitem(self, ip, key):
        found, _ = self.lookup(ip, key)
        if not found:
            ip.raise_(KeyError, key)
        items = self.concrete()
        if items is not None and isinstance(key, str):
            self.writes = [(wkey, wvalue) for wkey, wvalue in self.writes if wkey != key]
        else:
            self.writes = self.writes + [(key, _TOMB)]

    def contains(self, ip, item):
        return self.lookup(ip, item)[0]

    def to_v(self, ip):
        if self.ref is None:
            self.ref = ip.new_ref()
        return V.dict(self.ref)


#
# Sources
#

_MODULES = {}


def module_index(path):
    """The functions of a module file: {(first line of the code object, name): (node, qualname)}"""
    if path not in _MODULES:
        with open(path, encoding='utf-8') as fh:
            text = fh.read()
        tree = ast.parse(text)
        index = {}

        def walk(node, prefix):
            for child in ast.iter_child_nodes(node):
                if isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    line = child.decorator_list[0].lineno if child.decorator_list else child.lineno
                    index[(line, child.name)] = (child, prefix + child.name)
                    walk(child, prefix + child.name + '.')
                elif isinstance(child, ast.ClassDef):
                    walk(child, prefix + child.name + '.')
                elif isinstance(child, ast.Lambda):
                    index.setdefault((child.lineno, '<lambda>'), []).append((child, prefix + '<lambda>'))
                    walk(child, prefix)
                else:
                    walk(child, prefix)

        walk(tree, '')
        _MODULES[path] = index
    return _MODULES[path]


def interpretable(fn):
    code = getattr(fn, '__code__', None)
    if code is None:
        return False
    path = os.path.realpath(code.co_filename)
    return any(path.startswith(root) for root in ROOTS)


ROOTS = []


def local_names(node):
    """The names a function assigns (its locals)"""
    names = set()
    nonlocals = set()

    def walk(child):
        if isinstance(child, (ast.FunctionDef, ast.Lambda)):
            if isinstance(child, ast.FunctionDef):
                names.add(child.name)
            return
        if isinstance(child, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(child, ast.Name) and isinstance(child.ctx, (ast.Store, ast.Del)):
            names.add(child.id)
        if isinstance(child, ast.ExceptHandler) and child.name:
            names.add(child.name)
        if isinstance(child, (ast.Nonlocal, ast.Global)):
            nonlocals.update(child.names)
        for grand in ast.iter_child_nodes(child):
            walk(grand)

    body = node.body if isinstance(node.body, list) else [node.body]
    for stmt in body:
        walk(stmt)
    return names - nonlocals


class Frame:
    def __init__(self, module_globals, parent, qualname, names, node=None):
        self.locals = {}
        self.module_globals = module_globals
        self.parent = parent
        self.qualname = qualname
        self.names = names
        self.node = node
        self.loops = {}
        self.forgotten = set()
        self.exc = None

    def lookup(self, ip, name):
        frame = self
        while frame is not None:
            if name in frame.forgotten:
                raise Unsupported(f'{name} is read after a symbolic loop assigned it')
            if name in frame.locals:
                return frame.locals[name]
            if name in frame.names:
                if name in frame.locals:
                    return frame.locals[name]
                return ip.raise_(UnboundLocalError, name)
            frame = frame.parent
        if name in self.module_globals:
            return self.module_globals[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        return ip.raise_(NameError, name)


class Refuted(Exception):
    pass


class Stats:
    """Counters shared by the paths of one obligation"""

    def __init__(self):
        self.vcs = 0
        self.proved = 0
        self.refuted = []
        self.unknown = []
        self.paths = 0
        self.live = 0
        self.solver_s = 0.0
        self.functions = set()
        self.trusted = set()
        self.samples = []


class Interp:
    """One path"""

    def __init__(self, prefix, worklist, stats, deadline, prove_ms=10000):
        self.prefix = prefix
        self.worklist = worklist
        self.stats = stats
        self.deadline = deadline
        self.prove_ms = prove_ms
        self.trace = []
        self.solver = z3.Solver()
        self.pc = []
        self.kinds = {}
        self.keep = []
        self.lists = []
        self.dicts = []
        self.inputs = {}
        self.ref_count = 0
        self.fresh_count = 0
        self.contracts = {}
        self.loop_contracts = {}
        self.call_value = None
        self.world = None
        self.depth = 0
        self.rank_pairs = set()
        self.rank_terms = {}
        self.known_refs = {}
        self.notes = []
        self.loop_count = {}
        self.opaque_dicts = {}
        self.labels = []
        self.effects = 0
        self.host_loops = False
        self.container_kinds = None
        self.matches = []

    # --- logic

    def check(self, *extra, ms=1000):
        start = time.time()
        if start > self.deadline:
            raise Unsupported('time limit of the obligation')
        self.solver.set('timeout', ms)
        result = self.solver.check(*extra)
        self.stats.solver_s += time.time() - start
        return result

    def consistent(self):
        """The assumptions of the path have a model (asked of a new solver)"""
        solver = z3.Solver()
        solver.set('timeout', 10000)
        solver.add(*self.pc)
        start = time.time()
        result = solver.check()
        self.stats.solver_s += time.time() - start
        return result == z3.sat

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise PathEnd()
        self.pc.append(cond)
        self.solver.add(cond)

    def choose(self, conds, labels=None):
        """Take one of the cases (a z3 condition each; None: unconditional)"""
        pos = len(self.trace)
        if pos < len(self.prefix):
            pick = self.prefix[pos]
        else:
            feasible = []
            for ix, cond in enumerate(conds):
                if cond is False or (cond is not None and cond is not True and z3.is_false(cond)):
                    continue
                if cond is None or cond is True or len(conds) == 1 or self.check(cond) != z3.unsat:
                    feasible.append(ix)
            if not feasible:
                raise PathEnd()
            pick = feasible[0]
            for other in reversed(feasible[1:]):
                self.worklist.append(self.trace + [other])
        self.trace.append(pick)
        if conds[pick] is not None:
            self.assume(conds[pick])
        if labels is not None:
            self.labels.append(labels[pick])
        return pick

    def branch(self, cond):
        """Fork on a condition"""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.choose([cond, z3.Not(cond)]) == 0

    def pick(self, options):
        """Fork over concrete options (a case split of the obligation itself)"""
        options = list(options)
        ix = self.choose([None] * len(options))
        self.labels.append(str(options[ix])[:60])
        return options[ix]

    def prove(self, cond, what):
        """A verification condition: the path condition implies cond"""
        self.stats.vcs += 1
        if cond is True:
            self.stats.proved += 1
            return
        neg = z3.BoolVal(True) if cond is False else z3.Not(cond)
        result = self.check(neg, ms=min(1000, self.prove_ms))
        if result == z3.unknown:
            result = self.retry(neg)
        if result == z3.unknown:
            result = self.check(neg, ms=self.prove_ms)
        if result == z3.unsat:
            self.stats.proved += 1
        elif result == z3.sat:
            self.stats.refuted.append({'what': what, 'path': list(self.labels), 'model': self.describe(self.solver.model()), 'claim': str(cond)[:600],
                                       'inputs': self.concretize(self.solver.model())})
            raise PathEnd()
        else:
            self.stats.unknown.append(f'{what}: solver gave {result} ({self.solver.reason_unknown()})')
            raise PathEnd()

    def retry(self, neg):
        """A second attempt on the arithmetic abstraction: everything but arithmetic becomes a constant (a weaker set of assumptions)"""
        start = time.time()
        solver = z3.Solver()
        solver.set('timeout', self.prove_ms)
        table = {}
        for cond in self.pc + [neg]:
            solver.add(purify(z3.simplify(cond), table))
        result = solver.check()
        self.stats.solver_s += time.time() - start
        # A model of the abstraction is no counterexample
        return result if result == z3.unsat else z3.unknown

    def describe(self, model):
        out = {}
        for name, value in self.inputs.items():
            try:
                if isinstance(value, SV):
                    out[name] = str(model.eval(value.t, model_completion=True))[:200]
                elif isinstance(value, (SList, SDict)):
                    out[name] = f'{type(value).__name__} {value.what}'
                else:
                    out[name] = str(value)[:200]
            except z3.Z3Exception:
                out[name] = '?'
        return out

    def fork(self, prefix, worklist):
        """A nested path that starts in the present state"""
        sub = copy.copy(self)
        sub.prefix, sub.worklist, sub.trace = prefix, worklist, []
        sub.solver = z3.Solver()
        sub.solver.add(*self.pc)
        sub.pc = list(self.pc)
        for name in ('kinds', 'known_refs', 'rank_terms', 'opaque_dicts', 'loop_count'):
            setattr(sub, name, dict(getattr(self, name)))
        for name in ('lists', 'dicts', 'labels', 'notes', 'keep'):
            setattr(sub, name, list(getattr(self, name)))
        sub.rank_pairs = set(self.rank_pairs)
        return sub

    def snapshot(self):
        """The observable state: it is unchanged if two snapshots are equal"""
        return (self.world.get_id() if self.world is not None else None, self.effects, [(lst, lst.content) for lst in self.lists],
                [(dct, dct.base.get_id() if dct.base is not None else None, len(dct.writes)) for dct in self.dicts])

    def formula(self, fn):
        """The condition under which the pure test fn(ip) is true: all its paths, as one formula"""
        parts = []
        worklist = [[]]
        before = self.snapshot()
        while worklist:
            self.tick()
            sub = self.fork(worklist.pop(), worklist)
            start = len(sub.pc)
            counts = (sub.fresh_count, sub.ref_count)
            try:
                result = fn(sub)
                result = result.t if isinstance(result, SV) and result.k == 'bool' else sub.truth(result)
            except PathEnd:
                continue
            after = sub.snapshot()
            if after[:2] != before[:2] or after[2][:len(before[2])] != before[2] or after[3][:len(before[3])] != before[3]:
                raise Unsupported('effect inside a test of a symbolic loop')
            if sub.fresh_count != counts[0] and any(is_fresh(const, counts[0]) for const in consts_of(sub.pc[start:])):
                raise Unsupported('fresh constant inside a test of a symbolic loop')
            if result is not False:
                parts.append(z3.And(*sub.pc[start:], *([] if result is True else [result])))
        return z3.simplify(z3.Or(*parts)) if parts else z3.BoolVal(False)

    def first_match(self, n, pred):
        """The first k < n with pred(ip, k), or None: forks, with the facts about the elements before it"""
        self.fresh_count += 1
        k0 = z3.Int(f'k!{self.fresh_count}')

        def test(sub):
            sub.assume(z3.And(k0 >= 0, k0 < ival(n)))
            return pred(sub, k0)

        cond = z3.simplify(self.formula(test))
        # The same search again (same predicate, same length) has the same result
        key = (z3.substitute(cond, (k0, z3.Int('k?'))), ival(n) if not isinstance(ival(n), int) else z3.IntVal(n))
        for (cond2, n2), known in self.matches:
            if cond2.eq(key[0]) and n2.eq(key[1]):
                return known
        j = z3.Int('j')
        none = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ival(n)), z3.Not(z3.substitute(cond, (k0, j)))))
        self.fresh_count += 1
        k = z3.Int(f'first!{self.fresh_count}')
        found = z3.And(k >= 0, k < ival(n), z3.substitute(cond, (k0, k)), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Not(z3.substitute(cond, (k0, j))))))
        result = None if self.choose([none, found]) == 0 else k
        self.matches.append((key, result))
        return result

    def concretize(self, model):
        """Host values of the inputs under the model; None if one has no faithful host value"""
        from pyvc import concrete
        return concrete.inputs(self, model)

    def fresh(self, k, name):
        self.fresh_count += 1
        from pyvc.terms import SORTS
        return SV(k, z3.Const(f'{name}!{self.fresh_count}', SORTS[k]))

    def input(self, k, name, kinds=None):
        from pyvc.terms import SORTS
        sv = SV(k, z3.Const(name, SORTS[k]))
        self.inputs[name] = sv
        if k == 'val':
            self.set_kinds(sv, kinds if kinds is not None else ALL)
        return sv

    def fresh_world(self):
        from pyvc.terms import World
        self.fresh_count += 1
        return z3.Const(f'world!{self.fresh_count}', World)

    def new_ref(self):
        """The reference of a container that is created on this path (negative: distinct from every input reference)"""
        self.ref_count += 1
        return z3.IntVal(-self.ref_count)

    # --- kinds of values

    def set_kinds(self, sv, kinds):
        self.keep.append(sv.t)
        self.kinds[sv.t.get_id()] = frozenset(kinds)
        if frozenset(kinds) != ALL:
            self.assume(kind_cond(sv.t, kinds))

    def kinds_of(self, sv):
        kind = constructor_kind(sv.t)
        if kind is not None:
            return frozenset([kind])
        return self.kinds.get(sv.t.get_id(), ALL)

    def has_kind(self, sv, kinds):
        """Fork on whether the value is of one of the kinds"""
        possible = self.kinds_of(sv)
        inside = possible & kinds
        if not inside:
            return False
        if inside == possible:
            return True
        outside = possible - kinds
        pick = self.choose([kind_cond(sv.t, inside), kind_cond(sv.t, outside)])
        self.keep.append(sv.t)
        self.kinds[sv.t.get_id()] = inside if pick == 0 else outside
        return pick == 0

    def kind(self, sv):
        """Fork on the kind"""
        possible = [kind for kind in KINDS if kind in self.kinds_of(sv)]
        if len(possible) == 1:
            return possible[0]
        pick = self.choose([kind_cond(sv.t, [kind]) for kind in possible], possible)
        self.keep.append(sv.t)
        self.kinds[sv.t.get_id()] = frozenset([possible[pick]])
        return possible[pick]

    def unwrap(self, x):
        """The typed form of a value (forks on the kind)"""
        if not isinstance(x, SV) or x.k != 'val':
            return x
        kind = self.kind(x)
        return self.unwrap_kind(x, kind)

    def unwrap_kind(self, x, kind):
        t = x.t
        if kind == 'none':
            return None
        if kind == 'bool':
            t = z3.simplify(V.b(t))
            return True if z3.is_true(t) else (False if z3.is_false(t) else SV('bool', t))
        if kind == 'int':
            t = simp(V.i(t))
            return t if isinstance(t, int) else SV('int', t)
        if kind == 'flt':
            return SV('real', z3.simplify(V.r(t)))
        if kind == 'str':
            t = z3.simplify(V.s(t))
            return SV('str', t)
        if kind in ('list', 'dict'):
            return self.container(x, kind)
        return x

    def container(self, x, kind):
        """The heap object of a container value"""
        ref = z3.simplify(V.lref(x.t) if kind == 'list' else V.dref(x.t))
        key = ref.get_id()
        if key in self.known_refs:
            return self.known_refs[key]
        self.keep.append(ref)
        if z3.is_int_value(ref):
            for obj in (self.lists if kind == 'list' else self.dicts):
                if obj.ref is not None and obj.ref.eq(ref):
                    return obj
            raise Unsupported('unknown reference')
        # A container of the input: the same as a known one, or another one
        known = [obj for obj in (self.lists if kind == 'list' else self.dicts) if obj.ref is not None and not z3.is_int_value(obj.ref)]
        for obj in known:
            if self.branch(ref == obj.ref):
                self.known_refs[key] = obj
                return obj
        self.assume(ref >= 0)
        obj = self.make_container(kind, ref)
        self.known_refs[key] = obj
        return obj

    def make_container(self, kind, ref):
        self.fresh_count += 1
        # The content is a function of the reference (the state of the heap at the start)
        if kind == 'list':
            obj = SList(self, Base(self, LIST0(ref), self.container_kinds), ref, 'input')
            obj.initial = obj.content
        else:
            obj = SDict(self, DICT0(ref), (), ref, self.container_kinds, 'input')
            obj.initial = obj.base
        return obj

    def to_v(self, x):
        """The value as a term of sort V"""
        if isinstance(x, SV):
            if x.k == 'val':
                return x.t
            if x.k == 'real':
                return V.flt(x.t)
            return {'bool': V.bool, 'int': V.int, 'str': V.str}[x.k](x.t)
        if x is None:
            return V.none
        if isinstance(x, bool):
            return V.bool(z3.BoolVal(x))
        if isinstance(x, int):
            return V.int(z3.IntVal(x))
        if isinstance(x, float):
            return V.flt(real_of_float(x))
        if isinstance(x, str):
            return V.str(z3.StringVal(x))
        if isinstance(x, EObj):
            return x.to_v(self)
        if isinstance(x, tuple):
            raise Unsupported('tuple as a value')
        if isinstance(x, (list, dict)):
            return (V.list if isinstance(x, list) else V.dict)(z3.IntVal(-10 ** 9 - id(x) % 10 ** 9))
        if callable(x):
            return V.fn(z3.Int(f'fn:{getattr(x, "__module__", "")}.{getattr(x, "__qualname__", repr(x))}'))
        raise Unsupported(f'host object {type(x).__name__} as a value')

    # --- numbers, truth, equality

    def int_of(self, x):
        """An index: a raw int or a z3 Int"""
        x = self.unwrap(x)
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if isinstance(x, SV) and x.k == 'int':
            return x.t
        if isinstance(x, SV) and x.k == 'bool':
            return z3.If(x.t, 1, 0)
        return self.raise_(TypeError, 'not an integer')

    def truth(self, x):
        if isinstance(x, SV):
            x = self.unwrap(x)
        if isinstance(x, SV):
            if x.k == 'bool':
                return self.branch(x.t)
            if x.k in ('int', 'real'):
                return self.branch(x.t != 0)
            if x.k == 'str':
                return self.branch(x.t != z3.StringVal(''))
            return True
        if isinstance(x, EObj):
            return x.truth(self)
        return bool(x)

    def rank_axiom(self, a, b):
        for x, y in ((a, b),):
            key = (x.get_id(), y.get_id())
            if key not in self.rank_pairs:
                self.keep.extend((x, y))
                self.rank_pairs.add(key)
                self.rank_pairs.add((key[1], key[0]))
                self.assume((STR_RANK(x) == STR_RANK(y)) == (x == y))
                for z in (x, y):
                    if z3.is_string_value(z) and z.get_id() not in self.rank_terms:
                        for other in self.rank_terms.values():
                            self.assume((STR_RANK(z) < STR_RANK(other)) if z.as_string() < other.as_string() else (STR_RANK(z) > STR_RANK(other)))
                        self.rank_terms[z.get_id()] = z

    def py_eq(self, a, b):
        """Python's == (a bool, a symbolic bool)"""
        if a is b and not isinstance(a, SV):
            return True
        a, b = self.unwrap(a), self.unwrap(b)
        if not isinstance(a, (SV, EObj)) and not isinstance(b, (SV, EObj)):
            if isinstance(a, tuple) and isinstance(b, tuple):
                if len(a) != len(b):
                    return False
                for x, y in zip(a, b):
                    if not self.truth(self.py_eq(x, y)):
                        return False
                return True
            return a == b
        na, nb = num_term(a), num_term(b)
        if na is not None and nb is not None:
            return mk_bool(eq_num(na, nb))
        if (na is None) != (nb is None):
            return False
        sa, sb = str_term(a), str_term(b)
        if sa is not None and sb is not None:
            return mk_bool(sa == sb)
        if (sa is None) != (sb is None) or a is None or b is None:
            return False
        if isinstance(a, SV) and isinstance(b, SV):
            ka, kb = self.kind(a), self.kind(b)
            if ka == kb == 'dtn':
                return mk_bool(V.n(a.t) == V.n(b.t))
            if ka == kb and ka in ('fn', 'rex', 'uuid', 'other'):
                return mk_bool(a.t == b.t)
            if ka == kb or {ka, kb} <= {'date', 'dtn', 'dta'}:
                return SV('bool', func('py_eq', ['val', 'val'], 'bool')(a.t, b.t))
            return False
        if isinstance(a, EObj) and isinstance(b, EObj):
            if isinstance(a, Opaque) and isinstance(b, Opaque) and a.t.sort() == b.t.sort():
                return mk_bool(a.t == b.t)
            if isinstance(a, SList) and isinstance(b, SList):
                return self.list_eq(a, b)
            if isinstance(a, SDict) and isinstance(b, SDict):
                if a is b:
                    return True
                return SV('bool', func('py_eq_dict', ['dcontent', 'dcontent'], 'bool')(a.term(self), b.term(self)))
        if isinstance(a, (SList, SDict)) != isinstance(b, (SList, SDict)) or type(a) is not type(b):
            return False
        raise Unsupported(f'equality of {type(a).__name__} and {type(b).__name__}')

    def list_eq(self, a, b):
        if a is b:
            return True
        na, nb = a.content.n, b.content.n
        if isinstance(na, int) and isinstance(nb, int):
            if na != nb:
                return False
            for k in range(na):
                if not self.truth(self.py_eq(a.content.at(self, k), b.content.at(self, k))):
                    return False
            return True
        return SV('bool', func('py_eq_list', ['content', 'content'], 'bool')(a.content.term(self), b.content.term(self)))

    def identical(self, a, b):
        """Python's 'is'"""
        if a is b:
            return True
        if isinstance(a, SV) and a.k == 'val' and not isinstance(b, (SV, EObj)) and b is not None and not isinstance(b, (bool, int, float, str)):
            return mk_bool(a.t == self.to_v(b))
        if a is None or b is None:
            other = b if a is None else a
            if isinstance(other, SV):
                return other.k == 'val' and self.has_kind(other, frozenset(['none']))
            return False
        if isinstance(a, (bool, SV)) or isinstance(b, (bool, SV)):
            if isinstance(a, bool) or isinstance(b, bool):
                flag, other = (a, b) if isinstance(a, bool) else (b, a)
                if isinstance(other, SV):
                    if other.k == 'val':
                        if not self.has_kind(other, frozenset(['bool'])):
                            return False
                        other = self.unwrap(other)
                        return other is flag if isinstance(other, bool) else mk_bool(other.t if flag else z3.Not(other.t))
                    return mk_bool(other.t if flag else z3.Not(other.t)) if other.k == 'bool' else False
                return False
            ta, tb = self.to_v(a), self.to_v(b)
            ka, kb = self.kind(SV('val', ta)), self.kind(SV('val', tb))
            if ka != kb:
                return False
            if ka in ('str', 'int', 'flt', 'date', 'dtn', 'dta'):
                t = func('is_same', ['val', 'val'], 'bool')(ta, tb)
                self.assume(z3.Implies(t, ta == tb))
                return SV('bool', t)
            return mk_bool(ta == tb)
        if isinstance(a, EObj) and isinstance(b, EObj):
            if isinstance(a, Opaque) and isinstance(b, Opaque) and a.t.sort() == b.t.sort():
                return mk_bool(a.t == b.t)
        return False

    # --- exceptions

    def raise_(self, cls, *args):
        raise PyExc(ExcObj(cls, list(args)))

    def tick(self):
        if time.time() > self.deadline:
            raise Unsupported('time limit of the obligation')

    # --- calls

    def call(self, fn, args, kwargs=None):
        kwargs = kwargs or {}
        if not isinstance(fn, (EObj, SV)):
            try:
                contract = self.contracts.get(fn)
            except TypeError:
                contract = None
            if contract is not None:
                return contract(self, args, kwargs)
            if isinstance(fn, functools.partial):
                return self.call(fn.func, list(fn.args) + list(args), {**fn.keywords, **kwargs})
            if isinstance(fn, type) and issubclass(fn, BaseException):
                return self.make_exception(fn, args, kwargs)
            if interpretable(fn):
                return self.call_closure(self.closure_of(fn), args, kwargs)
            from pyvc import models
            return models.call_native(self, fn, args, kwargs)
        if isinstance(fn, EObj):
            return fn.call(self, args, kwargs)
        if fn.k == 'val' and self.has_kind(fn, frozenset(['fn'])):
            if self.call_value is not None:
                return self.call_value(self, fn, args, kwargs)
            raise Unsupported('call of a symbolic function value')
        return self.raise_(TypeError, 'object is not callable')

    def closure_of(self, fn):
        code = fn.__code__
        index = module_index(os.path.realpath(code.co_filename))
        entry = index.get((code.co_firstlineno, code.co_name))
        if isinstance(entry, list):
            # Several lambdas may begin on a line: the one whose body holds the code
            spots = [(pos[0], pos[2]) for pos in code.co_positions() if pos[0] is not None and pos[2] is not None and pos[3] != pos[2]]
            entry = [(node, name) for node, name in entry
                     if spots and all((node.body.lineno, node.body.col_offset) <= spot < (node.body.end_lineno, node.body.end_col_offset) for spot in spots)]
            entry = min(entry, key=lambda item: item[0].body.end_col_offset - item[0].body.col_offset) if entry else None
        if entry is None:
            raise Unsupported(f'source of {fn.__qualname__} not found')
        if fn.__closure__ and fn.__code__.co_freevars != ('__class__',):
            raise Unsupported(f'{fn.__qualname__} is a host closure')
        return Closure(entry[0], fn.__globals__, None, entry[1], list(fn.__defaults__ or ()), dict(fn.__kwdefaults__ or {}))

    def make_exception(self, cls, args, kwargs):
        init = cls.__init__
        obj = ExcObj(cls, list(args))
        if interpretable(init):
            self.call_closure(self.closure_of(init), [obj] + list(args), kwargs)
        elif kwargs:
            raise Unsupported('keyword arguments of an exception')
        return obj

    def call_closure(self, closure, args, kwargs):
        self.depth += 1
        self.tick()
        if self.depth > 60:
            raise Unsupported('call depth')
        node = closure.node
        self.stats.functions.add(f'{closure.module_globals.get("__name__", "?")}.{closure.qualname}')
        names = local_names(node)
        frame = Frame(closure.module_globals, closure.parent, closure.qualname, names, node)
        params = node.args
        positional = [arg.arg for arg in params.posonlyargs + params.args]
        frame.names = names | set(positional) | {arg.arg for arg in params.kwonlyargs}
        kwargs = dict(kwargs)
        if len(args) > len(positional):
            if params.vararg is None:
                self.raise_(TypeError, 'too many positional arguments')
            frame.locals[params.vararg.arg] = tuple(args[len(positional):])
        elif params.vararg is not None:
            frame.locals[params.vararg.arg] = ()
        for name, value in zip(positional, args):
            frame.locals[name] = value
        defaults = dict(zip(positional[len(positional) - len(closure.defaults):], closure.defaults))
        for name in positional[len(args):]:
            if name in kwargs:
                frame.locals[name] = kwargs.pop(name)
            elif name in defaults:
                frame.locals[name] = defaults[name]
            else:
                self.raise_(TypeError, f'missing argument {name}')
        for arg in params.kwonlyargs:
            if arg.arg in kwargs:
                frame.locals[arg.arg] = kwargs.pop(arg.arg)
            elif arg.arg in closure.kwdefaults:
                frame.locals[arg.arg] = closure.kwdefaults[arg.arg]
            else:
                self.raise_(TypeError, f'missing argument {arg.arg}')
        if params.kwarg is not None:
            frame.locals[params.kwarg.arg] = SDict(self, None, list(kwargs.items()))
        elif kwargs:
            self.raise_(TypeError, 'unexpected keyword arguments')
        from pyvc import interp
        try:
            if isinstance(node, ast.Lambda):
                return interp.ev(self, frame, node.body)
            signal = interp.block(self, frame, node.body)
            return signal[1] if signal is not None and signal[0] == 'return' else None
        finally:
            self.depth -= 1

    def list_content(self, x):
        """The content of an iterable as a sequence"""
        from pyvc import models
        x = self.unwrap(x)
        if isinstance(x, SList):
            return x.content
        if isinstance(x, (list, tuple)):
            return Lit(x)
        return models.content_of(self, x)


LIST0 = z3.Function('list_at_start', z3.IntSort(), Content)
DICT0 = z3.Function('dict_at_start', z3.IntSort(), DContent)

ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_TO_REAL, z3.Z3_OP_TO_INT,
         z3.Z3_OP_IS_INT, z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR, z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD,
         z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_ANUM}


def purify(t, table):
    """The arithmetic abstraction of a condition: every maximal term outside arithmetic becomes a constant"""
    key = t.get_id()
    if key in table:
        return table[key][1]
    kind = t.decl().kind() if z3.is_app(t) else None
    arith = z3.is_bool(t) or z3.is_arith(t)
    if kind == z3.Z3_OP_EQ and (z3.is_arith(t.arg(0)) or z3.is_bool(t.arg(0))) or kind in ARITH and all(z3.is_arith(arg) or z3.is_bool(arg) for arg in t.children()):
        args = [purify(arg, table) for arg in t.children()]
        result = t.decl()(*args) if args else t
        if kind in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) and args:
            result = {z3.Z3_OP_AND: lambda xs: z3.And(*xs), z3.Z3_OP_OR: lambda xs: z3.Or(*xs), z3.Z3_OP_ADD: z3.Sum, z3.Z3_OP_MUL: z3.Product}[kind](args)
    elif arith:
        result = z3.Const(f'pure!{len(table)}', t.sort())
    else:
        raise Unsupported('purification of a term')
    table[key] = (t, result)
    return result


def is_fresh(const, count):
    _, sep, number = const.decl().name().rpartition('!')
    return sep == '!' and number.isdigit() and int(number) > count


def consts_of(terms):
    """The uninterpreted constants of terms"""
    seen, out, work = set(), [], list(terms)
    while work:
        t = work.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(t)
        work.extend(t.children() if not z3.is_quantifier(t) else [t.body()])
    return out


def kind_cond(t, kinds):
    conds = [RECOGNIZERS[kind](t) for kind in KINDS if kind in kinds]
    return conds[0] if len(conds) == 1 else z3.Or(*conds)


_DECLS = {V.constructor(ix).name(): V.constructor(ix).name() for ix in range(V.num_constructors())}


def constructor_kind(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
        return _DECLS.get(t.decl().name())
    return None


def real_of_float(x):
    if x != x or x in (float('inf'), float('-inf')):
        raise Unsupported('non-finite float constant')
    num, den = x.as_integer_ratio()
    return z3.RealVal(num) if den == 1 else z3.Q(num, den)


def num_term(x):
    """The numeric term of a number (bool included, as in Python), else None"""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        return real_of_float(x)
    if isinstance(x, SV):
        if x.k in ('int', 'real'):
            return x.t
        if x.k == 'bool':
            return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    return None


def to_real(t):
    return z3.ToReal(t) if t.sort() == z3.IntSort() else t


def eq_num(a, b):
    return a == b if a.sort() == b.sort() else to_real(a) == to_real(b)


def str_term(x):
    if isinstance(x, str):
        return z3.StringVal(x)
    if isinstance(x, SV) and x.k == 'str':
        return x.t
    return None


def mk_bool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SV('bool', t)


def explore(fn, limit_s=60, max_paths=20000, prove_ms=10000):
    """Execute an obligation on all its paths"""
    stats = Stats()
    worklist = [[]]
    deadline = time.time() + limit_s
    undecided = None
    while worklist:
        prefix = worklist.pop()
        stats.paths += 1
        if stats.paths > max_paths or time.time() > deadline:
            undecided = 'path or time limit'
            break
        ip = Interp(prefix, worklist, stats, deadline, prove_ms)
        before = stats.vcs
        try:
            try:
                fn(ip)
            except PathEnd:
                pass
            # Vacuity: the assumptions of the path are consistent
            if stats.vcs > before and not stats.refuted and (ip.check() == z3.sat or stats.live == 0 and ip.consistent()):
                stats.live += 1
        except PathEnd:
            pass
        except Unsupported as exc:
            undecided = f'unsupported: {exc}'
            break
        except PyExc as exc:
            undecided = f'uncaught exception of the interpreted program: {exc.obj.cls.__name__} {exc.obj.args}'
            break
        except RecursionError:
            undecided = 'recursion limit'
            break
        if len(stats.refuted) >= 3:
            break
    return stats, undecided


def setup(src):
    del ROOTS[:]
    here = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
    ROOTS.extend([os.path.realpath(os.path.join(src, 'bare_script')) + os.sep, os.path.join(here, 'specs') + os.sep, os.path.join(here, 'pyvc', 'obs') + os.sep])
    sys.setrecursionlimit(20000)
