"""C07: lowered code is well formed - schema-valid, every emitted jump has exactly one target in its scope, every emitted label is used"""

import itertools
import re
from collections import Counter

from hv import progs
from specs.model_spec import is_script, scopes

TITLE = 'well-formedness of lowered code'
RULE = ('the models of every nesting shape to the stated depth at global and function scope with every break/continue variant, and of random structured '
        'programs mixed with user labels, jumps, includes, functions and long else-if chains; oracle: an independent schema predicate and label walker; '
        'non-trivial: at least one structured construct')
RESERVED = '__bareScript'


def label_problem(script):
    """Why the labels of the model are not intact (reserved labels, and user labels in structured code have no part in it)"""
    for function, statements in scopes(script):
        where = 'global scope' if function is None else f'function {function["name"]}'
        labels = Counter(st['label'] for st in statements if 'label' in st)
        jumps = Counter(st['jump']['label'] for st in statements if 'jump' in st)
        for label in jumps:
            if label.startswith(RESERVED) and labels[label] != 1:
                return f'label count differs: jump target {label} is defined {labels[label]} times in the {where}'
        for label, count in labels.items():
            if label.startswith(RESERVED):
                if jumps[label] == 0:
                    return f'unused label: {label} is not the target of any jump in the {where}'
                if count != 1:
                    return f'label count differs: {label} is defined {count} times in the {where}'
    return None


def check_text(text):
    from bare_script import lint_script, parse_script, validate_script  # pylint: disable=import-outside-toplevel
    script = parse_script(text)
    if not is_script(script):
        return f'schema: the model of {text!r} does not satisfy the schema'
    try:
        validated = validate_script(script)
    except Exception as exc:  # pylint: disable=broad-exception-caught
        return f'schema: validate_script rejects the model: {type(exc).__name__}: {exc}; text {text!r}'
    if validated != script:
        return 'schema: validation changes the model'
    problem = label_problem(script)
    if problem:
        return f'{problem}; text {text!r}'
    user_labels = re.search(r'^\s*(?!else\b)[A-Za-z_]\w*\s*:\s*$|^\s*jump', text, re.M)
    for warning in lint_script(script):
        if 'abel' in warning and (RESERVED in warning or not user_labels):
            return f'lint label warning: {warning!r}; text {text!r}'
    return None


def check_prog(case):
    """... and running it never raises Unknown jump label"""
    text = progs.text_of(case['prog'])
    message = check_text(text)
    if message is not None:
        return message
    outcome, _, _ = progs.run_real(text, case)
    if outcome[0] == 'error' and 'Unknown jump label' in outcome[1]:
        return f'runtime label error: {outcome[1]}; text {text!r}'
    return None


CHECKS = {'text': check_text, 'prog': check_prog}


def nontrivial(kind, case):
    return kind == 'text' or progs.depth_of(case['prog']) > 0


def shrink(kind, case):
    if kind == 'prog':
        for prog in progs.shrink_prog(case['prog']):
            yield {**case, 'prog': prog}
    else:
        from bare_script import BareScriptParserError, parse_script  # pylint: disable=import-outside-toplevel
        lines = case.split('\n')
        for size in (5, 4, 3, 2, 1):
            for ix in range(len(lines) - size + 1):
                text = '\n'.join(lines[:ix] + lines[ix + size:])
                try:
                    parse_script(text)
                    yield text
                except BareScriptParserError:
                    pass


JUMPS = (None, 'b0', 'b1', 'c0', 'c1')


def gen_shapes(rng, params):
    depth, part, parts, runs = params
    for ix, (tree, jump, infn) in enumerate(itertools.product(progs.shape_trees(depth), JUMPS, (False, True))):
        if ix % parts != part:
            continue
        prog = progs.shape_prog(tree, itertools.count(), False, jump)
        if infn:
            prog = [['func', 'f', ['p'], False, prog], ['expr', 'f(1)']]
        if runs:
            yield 'prog', {'prog': prog, 'sched': progs.random_sched(rng, progs.cond_keys(prog))}
        else:
            yield 'text', progs.text_of(prog)


def gen_random(rng, params):
    for _ in range(params):
        case = progs.random_case(rng, rng.choice([3, 4, 5, 6]))
        yield 'prog', case
        lines = progs.render(case['prog'])
        # User labels, jumps, includes, literals
        extra = ['u1:', 'jump u1', 'jumpif (a) u2', 'u2:', "include 'x.bare'", 'include <y.bare>', "s = 'it\\'s'", 'n = 1.5e+3', 'z = -0', 'fx()', 'return', '[b c]', 'n = 0x', '!a', 'q = 5.']
        for _ in range(rng.randrange(1, 5)):
            lines.insert(rng.randrange(len(lines) + 1), rng.choice(extra))
        text = '\n'.join(lines)
        from bare_script import BareScriptParserError, parse_script  # pylint: disable=import-outside-toplevel
        try:
            parse_script(text)
        except BareScriptParserError:
            continue
        yield 'text', text


def gen_chains(rng, params):
    """Else-if chains of every length, several constructs in a row, many functions"""
    for n in range(params):
        for has_else in (False, True):
            for infn in (False, True):
                prog = [['if', [[f"c('k{ix}')", [['expr', f"out('b{ix}')"]]] for ix in range(n + 1)], [['expr', "out('else')"]] if has_else else None]]
                prog = prog + [['while', "c('w')", prog + [['continue']]]] + [['for', 'v', 'i', 'arrayNew(1, 2)', prog + [['if', [["c('b')", [['break']]]], None], ['continue']]]]
                if infn:
                    prog = [['func', f'f{k}', [], False, prog] for k in range(3)] + [['expr', f'f{k}()'] for k in range(3)]
                yield 'prog', {'prog': prog, 'sched': progs.random_sched(rng, progs.cond_keys(prog))}
    numbers = ['0', '1', '12.', '1.50', '1e+5', '1e-400', '9' * 308, '9' * 309, '9' * 400, '1e+308', '1e+309', '2e+999999', '-1', '+1', '0.1e-7', '00', '1' + '0' * 308]
    for number in numbers:
        for frame in ('a = {}', 'return {}', 'if {}:\nendif', 'f({}, {})', 'jumpif ({}) x\nx:', '1 + {}'):
            text = frame.format(number, number)
            from bare_script import BareScriptParserError, parse_script  # pylint: disable=import-outside-toplevel
            try:
                parse_script(text)
            except BareScriptParserError:
                continue
            yield 'text', text


def tasks(tier):
    quick = tier == 'quick'
    res = [(f'shapes-{p}', gen_shapes, (3, p, 8, True)) for p in range(8)]
    if not quick:
        res += [(f'shapes4-{p}', gen_shapes, (4, p, 16, False)) for p in range(16)]
    res += [(f'random-{p}', gen_random, 350 if quick else 15000) for p in range(8)]
    res += [('chains', gen_chains, 6 if quick else 25)]
    return res
