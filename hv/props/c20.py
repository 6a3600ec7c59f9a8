"""C20: diffLines from the shipped include library reconstructs both inputs"""

import glob
import itertools
import os

from hv.core import SRC

TITLE = 'diffLines reconstruction'
RULE = ('diffLines of the shipped diff.bare, loaded with include <diff.bare> through the CLI include fetcher and run by execute_script: pairs of line lists of length <= 6 over 3 letters '
        '(thorough: all of them; quick: all to length 5 and a sample), random pairs up to 40 lines with common runs, strings with LF and CRLF line ends, arrays whose entries hold several '
        'lines; the blocks must be non-empty, concatenate to the exact left and right lines, and be all Identical for identical inputs; every shipped script parsed, schema-validated, '
        'linted and executed; non-trivial: different inputs')

_STATE = {}


def library():
    """(diffLines, options): the script function, as a script that includes it gets it"""
    if not _STATE:
        from bare_script import execute_script, parse_script  # pylint: disable=import-outside-toplevel
        from bare_script.bare import _FETCH_INCLUDE_PREFIX, _fetch_include  # pylint: disable=import-outside-toplevel
        options = {'globals': {}, 'fetchFn': _fetch_include, 'systemPrefix': _FETCH_INCLUDE_PREFIX, 'debug': True, 'logFn': _STATE.setdefault('log', []).append}
        execute_script(parse_script('include <diff.bare>\n'), options)
        main = parse_script('return diffLines(left, right)')
        _STATE['run'] = main
        _STATE['options'] = options
    return _STATE


def lines_of(value):
    if isinstance(value, list):
        return [line for part in value for line in lines_of(part)]
    return value.replace('\r\n', '\n').split('\n')


def check_diff(case):
    from bare_script import execute_script  # pylint: disable=import-outside-toplevel
    state = library()
    left, right = case['left'], case['right']
    if isinstance(left, list):
        left = list(left)
    if isinstance(right, list):
        right = left if case.get('same') else list(right)
    options = state['options']
    globals_ = options['globals']
    if case.get('fresh'):
        # A script of its own that includes the library and calls it
        from bare_script import parse_script  # pylint: disable=import-outside-toplevel
        globals_ = {'left': left, 'right': right}
        result = execute_script(parse_script('include <diff.bare>\nreturn diffLines(left, right)'), {**options, 'globals': globals_})
    else:
        globals_['left'], globals_['right'] = left, right
        result = execute_script(state['run'], options)
    want_left, want_right = lines_of(case['left']), lines_of(case['right'])
    if not isinstance(result, list):
        return f'blocks: {result!r} is not a list of differences for {case["left"]!r}, {case["right"]!r}; log {state["log"][-2:]!r}'
    for block in result:
        if not isinstance(block, dict) or set(block) != {'type', 'lines'} or block['type'] not in ('Identical', 'Add', 'Remove') or not isinstance(block['lines'], list):
            return f'blocks: {block!r} is not a difference'
        if not block['lines']:
            return f'blocks: empty block {block!r} in {result!r} for {case["left"]!r}, {case["right"]!r}'
    got_left = [line for block in result if block['type'] != 'Add' for line in block['lines']]
    got_right = [line for block in result if block['type'] != 'Remove' for line in block['lines']]
    if got_left != want_left:
        return f'left: {got_left!r} reconstructed, not {want_left!r} (right {want_right!r}); blocks {result!r}'
    if got_right != want_right:
        return f'right: {got_right!r} reconstructed, not {want_right!r} (left {want_left!r}); blocks {result!r}'
    if want_left == want_right and any(block['type'] != 'Identical' for block in result):
        return f'identical: inputs {want_left!r} gave {result!r}'
    if left != case['left'] or right != case['right']:
        return f'inputs changed: {left!r}, {right!r}'
    return None


def check_shipped(case):
    from bare_script import execute_script, lint_script, parse_script, validate_script  # pylint: disable=import-outside-toplevel
    from bare_script.bare import _FETCH_INCLUDE_PREFIX, _fetch_include  # pylint: disable=import-outside-toplevel
    with open(os.path.join(SRC, 'bare_script', 'include', case['file']), encoding='utf-8') as fh:
        script = parse_script(fh.read())
    validate_script(script)
    warnings = lint_script(script)
    if warnings:
        return f'lint: {case["file"]}: {warnings!r}'
    if case['file'] == 'unittestMock.bare':
        return None
    log = []
    execute_script(parse_script(f'include <{case["file"]}>\n'), {'globals': {}, 'fetchFn': _fetch_include, 'systemPrefix': _FETCH_INCLUDE_PREFIX, 'logFn': log.append, 'debug': True})
    bad = [line for line in log if 'warning' in line]
    return f'include: {case["file"]}: {log!r}' if bad else None


CHECKS = {'diff': check_diff, 'shipped': check_shipped}


def nontrivial(kind, case):
    return kind != 'diff' or case['left'] != case['right']


def shrink(kind, case):
    if kind == 'diff':
        for side in ('left', 'right'):
            if isinstance(case[side], list):
                for ix in range(len(case[side])):
                    yield {**case, side: case[side][:ix] + case[side][ix + 1:], 'same': False}


def gen_six(_rng, params):
    part, parts, longest = params
    lists = [list(left) for length in range(longest + 1) for left in itertools.product('abc', repeat=length)]
    for left in lists[part::parts]:
        for right in lists:
            yield 'diff', {'left': left, 'right': right}


def gen_sample(rng, params):
    for _ in range(params):
        yield 'diff', {side: [rng.choice('abc') for _ in range(rng.randrange(0, 7))] for side in ('left', 'right')}


LINES = ['a', 'b', 'c', '', ' ', 'function f():', 'aa', 'A', '1', '\t', 'a ', 'x\ry', '\r']


def edited(rng, lines):
    lines = list(lines)
    for _ in range(rng.randrange(0, 6)):
        ix = rng.randrange(len(lines) + 1)
        roll = rng.randrange(4)
        if roll == 0:
            lines.insert(ix, rng.choice(LINES))
        elif roll == 1:
            del lines[ix:ix + rng.randrange(1, 4)]
        elif roll == 2:
            lines[ix:ix + 1] = [rng.choice(LINES)]
        else:
            lines = lines[ix:] + lines[:ix]
    return lines


def gen_random(rng, params):
    for _ in range(params):
        pool = rng.choice([LINES, LINES[:3], LINES[:2], [f'line {ix}' for ix in range(60)]])
        left = [rng.choice(pool) for _ in range(rng.randrange(0, 41))]
        right = edited(rng, left) if rng.random() < 0.6 else [rng.choice(pool) for _ in range(rng.randrange(0, 41))]
        case = {'left': left, 'right': right[:40]}
        for side in ('left', 'right'):
            roll = rng.random()
            if roll < 0.2:
                case[side] = '\n'.join(case[side])
            elif roll < 0.4:
                case[side] = '\r\n'.join(case[side])
            elif roll < 0.5:
                # Entries of several lines
                lines = case[side]
                parts = []
                while lines:
                    cut = rng.randrange(1, 4)
                    parts.append(rng.choice(['\n', '\r\n']).join(lines[:cut]))
                    lines = lines[cut:]
                case[side] = parts
        if rng.random() < 0.05:
            case['right'] = case['left']
            case['same'] = True
        if rng.random() < 0.05:
            case['fresh'] = True
        yield 'diff', case


def gen_shipped(_rng, _params):
    for path in sorted(glob.glob(os.path.join(SRC, 'bare_script', 'include', '*.bare'))):
        yield 'shipped', {'file': os.path.basename(path)}


def tasks(tier):
    if tier == 'quick':
        return [*[(f'five-{p}', gen_six, (p, 8, 5)) for p in range(8)], ('sample-0', gen_sample, 4000), ('sample-1', gen_sample, 4000), ('random-0', gen_random, 400), ('random-1', gen_random, 400), ('random-2', gen_random, 400), ('shipped', gen_shipped, None)]
    return [(f'six-{p}', gen_six, (p, 16, 6)) for p in range(16)] + [(f'random-{p}', gen_random, 5000) for p in range(6)] + [('shipped', gen_shipped, None)]
