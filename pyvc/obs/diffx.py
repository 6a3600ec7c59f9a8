"""Obligations of the shipped script diff.bare (C20)"""

import os

import z3

import bare_script
from bare_script import parser as parser_mod
from pyvc import bare
from pyvc.dsl import obligation
from pyvc.engine import Unsupported

PATH = os.path.join(os.path.dirname(bare_script.__file__), 'include', 'diff.bare')


@obligation('bare.prefix_fact', ['C20'], [])
def _(ip):
    """Lemma: the prefix of one more element"""
    seq, ix = z3.Const('seq', bare.LINES), z3.Int('ix')
    ip.prove(bare.prefix_fact(seq, ix), 'prefix')


@obligation('bare.slice_fact', ['C20'], [])
def _(ip):
    """Lemma: a prefix and the slice after it"""
    seq, lo, hi = z3.Const('seq', bare.LINES), z3.Int('lo'), z3.Int('hi')
    fact = bare.slice_fact(seq, lo, hi)
    premise, conclusion = fact.children()
    ip.assume(premise)
    for ix, conjunct in enumerate(conclusion.children()):
        ip.prove(conjunct, f'slice {ix}')


@obligation('diff.diffLines', ['C20'], ['include/diff.bare: diffLines', 'parser.parse_script (of diff.bare)'], limit_s=230, prove_ms=10000)
def _(ip):
    """diffLines: the Identical and Remove blocks are the left lines, the Identical and Add blocks the right lines, no block is empty, and equal lines give no change"""
    with open(PATH, encoding='utf-8') as fh:
        script = parser_mod.parse_script(fh.read())
    function = [st['function'] for st in script['statements'] if 'function' in st and st['function']['name'] == 'diffLines']
    if len(function) != 1 or function[0].get('args') != ['left', 'right'] or function[0].get('lastArgArray'):
        raise Unsupported('diffLines has another form')
    globals_ = {st['expr']['name'] for st in script['statements'] if 'expr' in st and 'name' in st['expr']}
    left, right = bare.Param('left'), bare.Param('right')
    machine = bare.Machine(function[0]['statements'], [left, right], globals_)
    start = bare.State(0, {'left': left, 'right': right}, {}, set(), [z3.And(bare.FOLD(p.parts, 0) == bare.EMPTY, p.definition()) for p in (left, right)])
    cuts, arrivals, returns = bare.verify(ip, machine, start)
    for where, state in arrivals:
        for formula in cuts[where].formulas(state):
            if not z3.is_true(z3.simplify(formula)):
                ip.prove(z3.Implies(z3.And(*state.path), formula), f'the invariant at label {machine.statements[where]["label"]}: {formula}')
    if not returns:
        raise Unsupported('no return')
    for state, value in returns:
        if not isinstance(value, bare.Arr):
            raise Unsupported('result of another form')
        diffs = bare.View(machine, bare.State(0, {'result': value}, state.heap, set(), [])).diffs('result')
        claims = [('the Identical and Remove blocks are the left lines', diffs.left == left.lines()),
                  ('the Identical and Add blocks are the right lines', diffs.right == right.lines()), ('blocks have a type and lines', diffs.ok),
                  ('equal lines give no Add or Remove block', z3.Implies(left.lines() == right.lines(), z3.Not(diffs.changes)))]
        if bare.implied(state.path, [claim for _, claim in claims], 10000):
            raise Unsupported('no inductive invariant among the candidates proves the contract')
        for what, claim in claims:
            ip.prove(z3.Implies(z3.And(*state.path), claim), what)
