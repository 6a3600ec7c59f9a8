"""The logical vocabulary of the verification conditions.

Every BareScript (host) value is a term of the z3 datatype V. Floats are reals (NaN excluded by assumption); float arithmetic is uninterpreted, with exactness
axioms for small integral operands. Strings are z3 strings, ordered through a rank function. Containers are references; their contents live in the engine's heap.
"""

import z3

_v = z3.Datatype('V')
_v.declare('none')
_v.declare('bool', ('b', z3.BoolSort()))
_v.declare('int', ('i', z3.IntSort()))
_v.declare('flt', ('r', z3.RealSort()))
_v.declare('str', ('s', z3.StringSort()))
_v.declare('date', ('d', z3.IntSort()))         # datetime.date that is not a datetime
_v.declare('dtn', ('n', z3.IntSort()))          # naive datetime, as its microsecond number
_v.declare('dta', ('a', z3.IntSort()))          # aware datetime
_v.declare('list', ('lref', z3.IntSort()))
_v.declare('dict', ('dref', z3.IntSort()))
_v.declare('fn', ('f', z3.IntSort()))
_v.declare('rex', ('x', z3.IntSort()))
_v.declare('uuid', ('u', z3.IntSort()))
_v.declare('other', ('o', z3.IntSort()))        # any other host object
V = _v.create()

KINDS = ('none', 'bool', 'int', 'flt', 'str', 'date', 'dtn', 'dta', 'list', 'dict', 'fn', 'rex', 'uuid', 'other')
ALL = frozenset(KINDS)
# The value domain of the properties: what a script can hold
SCRIPT_KINDS = frozenset(KINDS) - {'uuid', 'other'}
RECOGNIZERS = {kind: getattr(V, f'is_{kind}') for kind in KINDS}

World = z3.DeclareSort('World')
Node = z3.DeclareSort('Node')       # an opaque sub-tree of a model
Content = z3.DeclareSort('Content')   # the content of a list
DContent = z3.DeclareSort('DContent')   # the content of a dict

# A rank of strings that is an order embedding (instances of its axiom are added per compared pair)
STR_RANK = z3.Function('str_rank', z3.StringSort(), z3.RealSort())

SORTS = {'bool': z3.BoolSort(), 'int': z3.IntSort(), 'real': z3.RealSort(), 'str': z3.StringSort(), 'val': V, 'world': World, 'node': Node,
         'content': Content, 'dcontent': DContent}

_functions = {}


def func(name, args, ret):
    """An uninterpreted function, by name and sort names"""
    key = (name, tuple(args), ret)
    if key not in _functions:
        _functions[key] = z3.Function(f'{name}/{"-".join(args)}', *[SORTS[arg] for arg in args], SORTS[ret])
    return _functions[key]
