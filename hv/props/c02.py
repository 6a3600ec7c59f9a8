"""C02: parse_expression == the tree dictated by the precedence levels"""

import itertools
import re

from hv.core import Skip
from specs.expr_spec import PREC, ref_parse

TITLE = 'expression parsing'
RULE = ('all operator sequences up to the stated length with plain, unary, call and parenthesised operands, random expressions to depth 8, random '
        'token strings and one-token mutations of valid expressions (accept/reject agreement); oracle: an independent precedence-climbing parser; '
        'non-trivial: at least one operator')
OPS = list(PREC)


def norm(expr):
    """Numbers as floats"""
    if isinstance(expr, dict):
        return {k: (float(v) if k == 'number' else norm(v)) for k, v in expr.items()}
    if isinstance(expr, list):
        return [norm(v) for v in expr]
    return expr


def real_parse(text):
    from bare_script import BareScriptParserError, parse_expression  # pylint: disable=import-outside-toplevel
    try:
        return parse_expression(text)
    except BareScriptParserError:
        return None


def check_text(text):
    if re.search(r'\[\s+\]', text):
        raise Skip()  # whether an all-blank bracketed name is a name is not specified
    want = ref_parse(text)
    got = real_parse(text)
    if (want is None) != (got is None):
        return f'accept/reject differs: {text!r} is {"rejected" if got is None else "accepted as " + repr(got)}, the grammar {"rejects" if want is None else "accepts"} it'
    if want is not None and norm(got) != norm(want):
        return f'tree differs: {text!r} parsed to {got!r}, the precedence levels dictate {want!r}'
    return None


CHECKS = {'text': check_text}


def nontrivial(_kind, case):
    return any(op in case for op in '*/%+-<>=!&|')


def shrink(_kind, case):
    if len(case) < 300:
        for size in (8, 4, 2, 1):
            for ix in range(0, len(case) - size + 1):
                yield case[:ix] + case[ix + size:]


OPERANDS = ['a', '1', "'s'", '-b', '!c', '(d + 1)', 'f(x, 2)', '[k 1]', '-(e)', '!-g', '"t"', '2.5', '(h)', 'i0']


def gen_chains(_rng, params):
    length, part, parts = params
    for ix, ops in enumerate(itertools.product(OPS, repeat=length)):
        if ix % parts != part:
            continue
        yield 'text', 'a' + ''.join(f' {op} {chr(98 + i)}' for i, op in enumerate(ops))


def gen_chain_operands(rng, params):
    length, part, parts, variants = params
    for ix, ops in enumerate(itertools.product(OPS, repeat=length)):
        if ix % parts != part:
            continue
        for _ in range(variants):
            yield 'text', rng.choice(OPERANDS) + ''.join(rng.choice(['{}', ' {}', ' {} ', '{} ']).format(op) + rng.choice(OPERANDS) for op in ops)
        if length >= 2:
            # One parenthesised sub-chain
            lo = rng.randrange(length)
            hi = rng.randrange(lo, length)
            terms = [chr(97 + i) for i in range(length + 1)]
            terms[lo] = rng.choice(['(', '-(', '!(', 'f(']) + terms[lo]
            terms[hi + 1] += ')'
            yield 'text', terms[0] + ''.join(f' {op} {terms[i + 1]}' for i, op in enumerate(ops))


def gen_long(rng, params):
    for _ in range(params):
        n = rng.randrange(5, 14)
        yield 'text', 'a' + ''.join(f' {rng.choice(OPS)} {rng.choice(OPERANDS) if rng.random() < .4 else chr(98 + i)}' for i in range(n))


def rand_expr(rng, depth):
    ws = lambda: rng.choice(['', '', ' ', '  ', '\t'])
    if depth <= 0 or rng.random() < 0.12:
        return rng.choice([
            'a', '_b1', 'null', 'true', 'x9', '0', '12', '3.25', '4.', '5e+3', '1.5e-2', "''", "'a b'", "'it\\'s'", "'\\\\'", '"q"', '"a\\"b"', '"\\\\\\""',
            '[a b]', '[x\\]y]', '[ c]', "'a + b'", '"(,)"', 'if', 'e5', '1e+0', 'true', "'\"'", '"\'"', '[\'q\']', '[a + b]', '+3', 'éx'[1:], "'\\n'"
        ])
    roll = rng.random()
    if roll < 0.5:
        op = rng.choice(OPS)
        return f'{rand_expr(rng, depth - 1)}{ws()}{op}{ws()}{rand_expr(rng, depth - 1)}'
    if roll < 0.65:
        return f'{rng.choice("!-")}{ws()}{rand_expr(rng, depth - 1)}'
    if roll < 0.8:
        return f'({ws()}{rand_expr(rng, depth - 1)}{ws()})'
    args = f'{ws()},{ws()}'.join(rand_expr(rng, depth - 2) for _ in range(rng.randrange(0, 4)))
    return f'{rng.choice(["f", "if", "arrayNew", "g_1", "null"])}{ws()}({ws()}{args}{ws()})'


def gen_random(rng, params):
    for _ in range(params):
        text = rand_expr(rng, rng.randrange(1, 9))
        if len(text) < 600:
            yield 'text', text


TOKENS = OPS + ['(', ')', ',', '!', '-', 'a', 'f(', 'bc', '1', '2.5', '.', '5.', "'s'", '"t"', '[v]', ' ', '=', '&', '|', '@', '#', ':', '$', "'", '"',
                '[', ']', '+1', '1e', 'e+2', '1e+2', '3a', '()', 'é', '+', '-', '0x1', '1e5', ';', '{', '}', '?', '~', '^', '&&', '\t', '1_0', '']


def gen_tokens(rng, params):
    for _ in range(params):
        yield 'text', rng.choice(['', ' ']).join(rng.choice(TOKENS) for _ in range(rng.randrange(0, 9)))


def gen_mutants(rng, params):
    for _ in range(params):
        text = rand_expr(rng, rng.randrange(1, 5))
        if len(text) > 200 or '\\' in text:
            continue
        for _ in range(3):
            ix = rng.randrange(len(text) + 1)
            roll = rng.random()
            if roll < 0.4:
                yield 'text', text[:ix] + text[ix + 1:]
            elif roll < 0.7:
                yield 'text', text[:ix] + rng.choice(TOKENS) + text[ix:]
            else:
                yield 'text', text[:ix] + rng.choice(TOKENS) + text[ix + 1:]


def gen_short(_rng, params):
    """Every string of short tokens"""
    length, part, parts = params
    alphabet = ['a', '1', '-', '!', '(', ')', ',', '*', '=', '<', ' ', "'", 'f(', '[', ']', '+', '&']
    for ix, toks in enumerate(itertools.product(alphabet, repeat=length)):
        if ix % parts == part:
            yield 'text', ''.join(toks)


def tasks(tier):
    quick = tier == 'quick'
    res = [(f'chains-{n}', gen_chains, (n, 0, 1)) for n in (0, 1, 2, 3)]
    res += [(f'chains-4-{p}', gen_chains, (4, p, 8)) for p in range(8)]
    res += [(f'operands-{n}-{p}', gen_chain_operands, (n, p, 4, (20 if n == 1 else 6 if n == 2 else 2) * (1 if quick else 10))) for n in (1, 2, 3) for p in range(4)]
    res += [(f'operands-4-{p}', gen_chain_operands, (4, p, 8, 1 if quick else 10)) for p in range(8)]
    res += [(f'long-{p}', gen_long, 1500 if quick else 40000) for p in range(4)]
    res += [(f'random-{p}', gen_random, 3000 if quick else 60000) for p in range(8)]
    res += [(f'tokens-{p}', gen_tokens, 12000 if quick else 200000) for p in range(4)]
    res += [(f'mutants-{p}', gen_mutants, 4000 if quick else 60000) for p in range(4)]
    res += [(f'short-{n}-{p}', gen_short, (n, p, 4)) for n in ((1, 2, 3, 4) if quick else (1, 2, 3, 4, 5)) for p in range(4)]
    return res
