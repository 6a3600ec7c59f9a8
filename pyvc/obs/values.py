"""Obligations of src/bare_script/value.py: type, truth, identity and order of values"""

import z3

from bare_script import value as mod
from pyvc.dsl import inline, int_term, obligation, outcome, prove_same, tail_loop, value
from pyvc.engine import CAT, CLEN, DGET, SList, SV, num_term, to_real
from pyvc.models import sorted_keys
from pyvc.terms import RECOGNIZERS, SCRIPT_KINDS, STR_RANK, V, Content, DContent, func
from specs import value_spec


def against(ip, code, spec, *args, numeric=False):
    """Claim: the code ends as the specification function does on the same arguments"""
    got = outcome(ip, code, *args)
    want = outcome(ip, spec, *args)
    ip.prove(got.ok == want.ok, f'no exception ({got.exc.cls.__name__ if got.exc else "-"})')
    if got.ok:
        prove_same(ip, got.value, want.value, 'result', numeric)


@obligation('value_type.spec', ['C03', 'C11', 'C15'], ['value.value_type'])
def _(ip):
    against(ip, mod.value_type, value_spec.spec_type, value(ip, 'v'))


@obligation('value_boolean.spec', ['C01', 'C03', 'C19'], ['value.value_boolean'])
def _(ip):
    against(ip, mod.value_boolean, value_spec.spec_boolean, value(ip, 'v'))


@obligation('value_normalize_datetime.spec', ['C11', 'C16'], ['value.value_normalize_datetime'])
def _(ip):
    against(ip, mod.value_normalize_datetime, value_spec.spec_local, value(ip, 'v', frozenset(['date', 'dtn', 'dta'])))


@obligation('value_is.spec', ['C15'], ['value.value_is'])
def _(ip):
    a, b = value(ip, 'a'), value(ip, 'b')
    got = outcome(ip, mod.value_is, a, b)
    ip.prove(got.ok, 'no exception')
    ka, kb = ip.kind(a), ip.kind(b)
    if ka in ('int', 'flt') and kb in ('int', 'flt'):
        ip.prove(as_bool(got.value) == (num(ip, a) == num(ip, b)), 'numbers by value')
    elif ka != kb:
        ip.prove(z3.Not(as_bool(got.value)), 'different types are different')
    elif ka in ('none', 'bool', 'list', 'dict', 'fn', 'rex'):
        ip.prove(as_bool(got.value) == (a.t == b.t), 'identity')
    else:
        ip.prove(z3.Implies(as_bool(got.value), a.t == b.t), 'identity')


def as_bool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x.t


def num(ip, x):
    x = ip.unwrap(x)
    return to_real(num_term(x))


#
# The order of values
#

# The order of two values (the recursive calls), of two lists and of two dicts from an index on
CMP = z3.Function('cmp', V, V, z3.IntSort())
LEX = z3.Function('lex', Content, Content, z3.IntSort(), z3.IntSort())
DLEX = z3.Function('dlex', DContent, DContent, z3.IntSort(), z3.IntSort())
NORM = z3.Function('local_instant', V, z3.IntSort())
TYPE_NAMES = ('array', 'boolean', 'datetime', 'function', 'number', 'object', 'regex', 'string')


def sgn(x):
    return z3.If(x < 0, -1, z3.If(x > 0, 1, 0))


def type_rank(v):
    """null first, then the types by name"""
    rank = z3.IntVal(0)
    for kinds, name in (('list', 'array'), ('bool', 'boolean'), ('date dtn dta', 'datetime'), ('fn', 'function'), ('int flt', 'number'), ('dict', 'object'),
                        ('rex', 'regex'), ('str', 'string')):
        for kind in kinds.split():
            rank = z3.If(RECOGNIZERS[kind](v), 1 + TYPE_NAMES.index(name), rank)
    return rank


def number_of(v):
    return z3.If(V.is_int(v), z3.ToReal(V.i(v)), V.r(v))


def order_formula(a, b, lists, dicts):
    """The specified order of two values; lists/dicts: the order of two containers"""
    same_type = z3.If(type_rank(a) == 1, lists(a, b),
                      z3.If(type_rank(a) == 2, z3.If(V.b(a) == V.b(b), 0, z3.If(V.b(b), -1, 1)),
                            z3.If(type_rank(a) == 3, sgn(NORM(a) - NORM(b)),
                                  z3.If(type_rank(a) == 5, sgn_real(number_of(a) - number_of(b)),
                                        z3.If(type_rank(a) == 6, dicts(a, b),
                                              z3.If(type_rank(a) == 8, sgn_real(STR_RANK(V.s(a)) - STR_RANK(V.s(b))), 0))))))
    return z3.If(type_rank(a) == type_rank(b), same_type, sgn(type_rank(a) - type_rank(b)))


def sgn_real(x):
    return z3.If(x < 0, z3.IntVal(-1), z3.If(x > 0, z3.IntVal(1), z3.IntVal(0)))


def normalize_contract(ip, args, kwargs):
    """The contract of value_normalize_datetime: the naive local datetime of the instant (see value_normalize_datetime.spec)"""
    v = args[0]
    t = ip.to_v(v)
    n = NORM(t)
    if ip.kind(SV('val', t)) == 'dtn':
        ip.assume(n == V.n(t))
    return SV('val', V.dtn(n))


def compare_contract(fn, ip):
    """The contract of the recursive calls: CMP - strings (keys) by the function itself"""
    def contract(ip2, args, kwargs):
        x, y = args
        kinds = [ip2.kinds_of(arg) if isinstance(arg, SV) and arg.k == 'val' else None for arg in args]
        if all(kind == frozenset(['str']) for kind in kinds):
            return ip2.call_closure(ip2.closure_of(fn), [x, y], {})
        t = CMP(ip2.to_v(x), ip2.to_v(y))
        ip2.assume(z3.And(t >= -1, t <= 1))
        return SV('int', t)
    return contract


def container_order(ip, fn, left, right):
    """fn(left, right) on two lists or two dicts, with the loop contract LEX/DLEX"""
    if isinstance(left, SList):
        lc, rc = left.content.term(ip), right.content.term(ip)
        ln, rn = left.content.n, right.content.n

        def summary(k):
            return LEX(lc, rc, k)

        def unfold(k):
            c = CMP(CAT(lc, k), CAT(rc, k))
            ip.assume(summary(k) == z3.If(z3.Or(k >= ln, k >= rn), sgn(ln - rn), z3.If(c != 0, c, summary(k + 1))))
    else:
        lc, rc = left.term(ip), right.term(ip)
        lk, rk = sorted_keys(ip, left), sorted_keys(ip, right)
        ln, rn = lk.n, rk.n

        def summary(k):
            return DLEX(lc, rc, k)

        def unfold(k):
            ip.assume(summary(k) == dlex_unfold(lc, rc, lk.t, rk.t, ln, rn, k))

    ip.contracts[fn] = compare_contract(fn, ip)
    ip.contracts[mod.value_normalize_datetime] = normalize_contract
    ip.loop_contracts[fn.__name__] = lambda ip2, frame, node, spc: tail_loop(ip2, frame, node, spc, summary, unfold, lambda k, v: int_term(v) == summary(k))
    got = inline(ip, fn, left, right)
    return got, summary(z3.IntVal(0))


def dlex_unfold(lc, rc, lk, rk, ln, rn, k):
    a, b = CAT(lk, k), CAT(rk, k)
    keys = sgn_real(STR_RANK(V.s(a)) - STR_RANK(V.s(b)))
    vals = CMP(DGET(lc, a), DGET(rc, b))
    return z3.If(z3.Or(k >= ln, k >= rn), sgn(ln - rn), z3.If(keys != 0, keys, z3.If(vals != 0, vals, DLEX(lc, rc, k + 1))))


def order_contract(fn):
    def check(ip):
        a, b = value(ip, 'a'), value(ip, 'b')
        ka, kb = ip.kind(a), ip.kind(b)
        if ka == kb and ka in ('list', 'dict'):
            left, right = ip.unwrap(a), ip.unwrap(b)
            if left is right:
                # The same container: the same content twice
                right = left
            got, want = container_order(ip, fn, left, right)
        else:
            ip.contracts[mod.value_normalize_datetime] = normalize_contract
            if fn is not mod.value_compare:
                ip.contracts[value_spec.spec_local] = normalize_contract
            for v in (a, b):
                ip.assume(z3.Implies(V.is_dtn(v.t), NORM(v.t) == V.n(v.t)))
            if ka == kb == 'str':
                ip.rank_axiom(V.s(a.t), V.s(b.t))
            got = inline(ip, fn, a, b)
            want = order_formula(a.t, b.t, lambda x, y: z3.IntVal(0), lambda x, y: z3.IntVal(0))
        ip.prove(got.ok, 'no exception')
        ip.prove(int_term(got.value) == want, 'the specified order')
    return check


obligation('value_compare.order', ['C11', 'C03', 'C19'], ['value.value_compare', 'value.value_type', 'value.value_normalize_datetime'])(order_contract(mod.value_compare))


@obligation('value_compare.total_preorder', ['C11'], ['value.value_compare'])
def _(ip):
    """The specified order is a total preorder, given that the order of containers is one (value_compare.containers)"""
    vals = [value(ip, name, frozenset(SCRIPT_KINDS)) for name in 'abc']
    lists = z3.Function('list_order', V, V, z3.IntSort())
    dicts = z3.Function('dict_order', V, V, z3.IntSort())
    terms = [v.t for v in vals]
    for fn in (lists, dicts):
        ip.assume(preorder(fn, terms))
    for x in terms:
        ip.assume(z3.Implies(V.is_dtn(x), NORM(x) == V.n(x)))

    def order(x, y):
        return order_formula(x, y, lists, dicts)

    a, b, c = terms
    ip.prove(order(a, a) == 0, 'reflexive')
    ip.prove(order(a, b) == -order(b, a), 'antisymmetric')
    ip.prove(z3.Implies(z3.And(order(a, b) <= 0, order(b, c) <= 0), order(a, c) <= 0), 'transitive')
    ip.prove(z3.Implies(V.is_none(a), order(a, b) <= 0), 'null first')
    ip.prove(z3.Implies(z3.And(V.is_int(a), V.is_flt(b), z3.ToReal(V.i(a)) == V.r(b)), order(a, c) == order(b, c)), 'int and float spellings of a number')


def preorder(fn, terms):
    conds = []
    for x in terms:
        conds.append(fn(x, x) == 0)
        for y in terms:
            conds.append(z3.And(fn(x, y) >= -1, fn(x, y) <= 1, fn(x, y) == -fn(y, x)))
            for z in terms:
                conds.append(z3.Implies(z3.And(fn(x, y) <= 0, fn(y, z) <= 0), fn(x, z) <= 0))
    return z3.And(*conds)


@obligation('value_compare.containers', ['C11'], ['value.value_compare'])
def _(ip):
    """The lexicographic orders LEX and DLEX are total preorders: the step of the induction on the index (from the end), given the order of the elements"""
    which = ip.pick(['list', 'dict'])
    k = ip.fresh('int', 'k').t
    ip.assume(k >= 0)
    if which == 'list':
        cs = [ip.fresh('content', name).t for name in 'abc']
        lens = [CLEN(c) for c in cs]
        elements = [CAT(c, k) for c in cs]
        ip.assume(preorder(CMP, elements))

        def lex(i, j, at):
            return LEX(cs[i], cs[j], at)

        def step(i, j):
            c = CMP(elements[i], elements[j])
            return z3.If(z3.Or(k >= lens[i], k >= lens[j]), sgn(lens[i] - lens[j]), z3.If(c != 0, c, lex(i, j, k + 1)))
    else:
        cs = [ip.fresh('dcontent', name).t for name in 'abc']
        keys = [func('sorted_keys', ['dcontent'], 'content')(c) for c in cs]
        lens = [CLEN(key) for key in keys]
        values = [DGET(c, CAT(key, k)) for c, key in zip(cs, keys)]
        ip.assume(preorder(CMP, values))

        def lex(i, j, at):
            return DLEX(cs[i], cs[j], at)

        def step(i, j):
            return dlex_unfold(cs[i], cs[j], keys[i], keys[j], lens[i], lens[j], k)
    for n in lens:
        ip.assume(n >= 0)
    # Definition at k; the claim at k + 1 (below the lengths: the induction hypothesis); beyond all lengths it is the base case
    for i in range(3):
        for j in range(3):
            ip.assume(lex(i, j, k) == step(i, j))
            inside = z3.And(k < lens[i], k < lens[j])
            ip.assume(z3.Implies(inside, z3.And(lex(i, j, k + 1) >= -1, lex(i, j, k + 1) <= 1, lex(i, j, k + 1) == -lex(j, i, k + 1))))
            for m in range(3):
                ip.assume(z3.Implies(z3.And(inside, k < lens[m], lex(i, j, k + 1) <= 0, lex(j, m, k + 1) <= 0), lex(i, m, k + 1) <= 0))
        ip.assume(z3.Implies(k < lens[i], lex(i, i, k + 1) == 0))
    # All three agree up to k, so a length that ends before k ends all comparisons before k
    ip.assume(z3.And(*[k <= n for n in lens]))
    ip.prove(lex(0, 0, k) == 0, 'reflexive')
    ip.prove(lex(0, 1, k) == -lex(1, 0, k), 'antisymmetric')
    ip.prove(z3.Implies(z3.And(lex(0, 1, k) <= 0, lex(1, 2, k) <= 0), lex(0, 2, k) <= 0), 'transitive')
