"""C06: parse_script is total; its diagnostics point at the offending source"""

import itertools
import re

from hv import progs
from hv.core import Skip
from hv.props.c02 import TOKENS, rand_expr
from specs.expr_spec import ref_parse, reject_positions
from specs.script_spec import Ambiguous, Opened, Rejected, ignorable, logical_lines, read, split_lines

TITLE = 'totality and diagnostics of the parser'
RULE = ('texts from structured programs with mutations (line deleted/duplicated/swapped/corrupted/continued), statement-word soup, error tokens planted in '
        'every kind of line, random characters, long lines; oracle: an independent statement-level reader (acceptance, line, column set), the reference '
        'expression parser for error positions, caret arithmetic, line-deletion and prefix-shift relations; non-trivial: a non-blank text')
TITLE_LINE_MAX = 120


def real_parse(text, start=1):
    from bare_script import BareScriptParserError, parse_script  # pylint: disable=import-outside-toplevel
    try:
        return parse_script(text, start), None
    except BareScriptParserError as exc:
        return None, exc


def excluded(text):
    """Texts whose reading the language does not specify"""
    return (re.search(r'\[\s+\]', text) or 'asyncfunction' in text or re.search(r'^\s*(?:if|elif|while)\s{2,}:\s*$', text, re.M) or re.search(r'\bin\s{2,}:', text) or
            any(ch.isdigit() and ch not in '0123456789' for ch in text))


def caret_problem(exc):
    """The caret sits under the character at the column"""
    message = str(exc)
    head = f'{exc.error}, line number {exc.line_number}:\n' if exc.line_number is not None else f'{exc.error}:\n'
    if not message.startswith(head) or not message.endswith('^\n'):
        return f'message format: {message!r}'
    rest = message[len(head):-2]
    shown, _, pad = rest.rpartition('\n')
    if pad.strip(' ') != '':
        return f'message format: {message!r}'
    caret = len(pad)
    column = exc.column_number - 1
    line = exc.line
    if shown == line:
        if caret != column:
            return f'caret is under column {caret + 1}, the error column is {column + 1}'
        return None
    if len(line) <= TITLE_LINE_MAX:
        return f'a line of {len(line)} characters is shown as {shown!r}'
    # Elided: try every reading of the ellipses
    for prefix, suffix in itertools.product(('... ', ''), (' ...', '')):
        if not prefix and not suffix:
            continue
        if not (shown.startswith(prefix) and shown.endswith(suffix)) or len(shown) < len(prefix) + len(suffix):
            continue
        core = shown[len(prefix):len(shown) - len(suffix)]
        offset = column - (caret - len(prefix))
        if offset < 0 or line[offset:offset + len(core)] != core:
            continue
        if not prefix and offset > 0 or not suffix and offset + len(core) < len(line):
            continue
        if not offset <= column <= offset + len(core):
            continue
        return None
    return f'caret: no reading of the elided line {shown!r} puts the caret (at {caret + 1}) under column {column + 1} of {line!r}'


def check_text(case):
    text, start = case['text'], case.get('start', 1)
    if excluded(text):
        raise Skip()
    script, exc = real_parse(text, start)
    try:
        read(text)
        expect = None
    except Rejected as rej:
        expect = [rej]
    except Opened as opened:
        expect = opened.rejects
    except Ambiguous as exc:
        raise Skip() from exc
    if exc is None:
        if expect is not None:
            what = expect[0]
            return f'accepted silently: line {start + what.index} {what.line!r} ({what.what}); text {text!r}'
        return check_accounting(text, script)
    if expect is None:
        return f'rejected: {exc.error!r} at line {exc.line_number} of a well-formed text {text!r}'
    if isinstance(exc.line_number, bool) or not isinstance(exc.line_number, int):
        return f'line number is {exc.line_number!r}: {exc.error!r} for {text!r}'
    matches = [rej for rej in expect if start + rej.index == exc.line_number]
    if not matches:
        return f'line number differs: reported {exc.line_number}, the offending line is {start + expect[0].index}; {exc.error!r} for {text!r}'
    rej = matches[0]
    if exc.line != rej.line:
        return f'line text differs: reported {exc.line!r}, the offending line is {rej.line!r}'
    if isinstance(exc.column_number, bool) or not isinstance(exc.column_number, int) or not 1 <= exc.column_number <= max(len(exc.line), 0) + 1:
        return f'column outside the line: {exc.column_number!r} for {exc.line!r}'
    if rej.columns is not None and exc.column_number not in rej.columns:
        return f'column differs: reported {exc.column_number}, expected {rej.columns} in {exc.line!r} ({exc.error})'
    problem = caret_problem(exc)
    return f'caret differs: {problem}' if problem else None


def check_accounting(text, script):
    """Every line contributes: deleting it changes the model or is an error"""
    phys = split_lines(text)
    logical = logical_lines(text)
    if len(logical) > 40:
        return None
    bounds = [entry[0] for entry in logical] + [len(phys)]
    for ix in range(len(logical)):
        rest = '\n'.join(phys[:bounds[ix]] + phys[bounds[ix + 1]:])
        other, exc = real_parse(rest)
        if exc is None and other == script:
            return f'dropped line: {logical[ix][1]!r} has no effect on the model of {text!r}'
    return None


def check_expr(text):
    """The error column of parse_expression"""
    from bare_script import BareScriptParserError, parse_expression  # pylint: disable=import-outside-toplevel
    if excluded(text) or re.search(r'\\[\\\'"\]]', text):
        raise Skip()
    try:
        parse_expression(text)
        return None
    except BareScriptParserError as exc:
        if exc.line != text:
            return f'line text differs: {exc.line!r} for {text!r}'
        if exc.line_number is not None:
            return f'line number {exc.line_number!r} for an expression'
        column = exc.column_number
        if not isinstance(column, int) or not 1 <= column <= len(text) + 1:
            return f'column outside the text: {column!r} for {text!r}'
        positions = reject_positions(text)
        if positions is not None and not any(column - 1 <= pos and text[column - 1:pos].strip() == '' for pos in positions):
            return f'column differs: {column} for {text!r}, the offending token starts at column {[pos + 1 for pos in positions]}'
        problem = caret_problem(exc)
        return f'caret differs: {problem}' if problem else None


def check_shift(case):
    """Prefix lines move the line number and change nothing else"""
    text, prefix, start = case['text'], case['prefix'], case.get('start', 1)
    if excluded(text):
        raise Skip()
    base, exc = real_parse(text, start)
    count = len(prefix)
    shifted, exc2 = real_parse('\n'.join(prefix + [text]), start)
    offset, exc3 = real_parse(text, start + count)
    if exc is None:
        if exc2 is not None or exc3 is not None:
            return f'prefix lines make a well-formed text an error: {exc2 or exc3}'
        simple = sum(1 for line in prefix if not ignorable(line))
        if base != offset:
            return 'the start line number changes the model'
        if shifted['statements'][simple:] != base['statements'] and 'include' not in shifted['statements'][simple]:
            return f'prefix lines change the model: {shifted!r}'
        return None
    for other, name in ((exc2, 'prefix lines'), (exc3, 'the start line number')):
        if other is None:
            return f'{name}: the error disappears'
        if (other.error, other.line, other.column_number) != (exc.error, exc.line, exc.column_number):
            return f'{name} change the error from {(exc.error, exc.line, exc.column_number)!r} to {(other.error, other.line, other.column_number)!r}'
        if other.line_number != exc.line_number + count:
            return f'{name}: line number {exc.line_number} became {other.line_number}, expected {exc.line_number + count}'
        if str(other) != str(exc).replace(f'line number {exc.line_number}:', f'line number {other.line_number}:', 1):
            return f'{name} change the message: {str(other)!r}'
    return None


def check_caret(case):
    from bare_script import BareScriptParserError  # pylint: disable=import-outside-toplevel
    exc = BareScriptParserError('hv error', case['line'], case['column'], case['number'])
    problem = caret_problem(exc)
    return f'caret differs: {problem}' if problem else None


CHECKS = {'text': check_text, 'expr': check_expr, 'shift': check_shift, 'caret': check_caret}


def nontrivial(kind, case):
    return kind == 'caret' or (case if kind == 'expr' else case['text']).strip() != ''


def shrink(kind, case):
    if kind == 'expr':
        for ix in range(len(case)):
            yield case[:ix] + case[ix + 1:]
    if kind in ('text', 'shift'):
        lines = case['text'].split('\n')
        for ix in range(len(lines)):
            yield {**case, 'text': '\n'.join(lines[:ix] + lines[ix + 1:])}


WORDS = ['function f():', 'function f(a, b...):', 'function f(a:', 'async function g():', 'function f(...):', 'endfunction', 'if a:', 'if a', 'if a +:', 'if (a:', 'elif b:', 'elif b *:',
         'else:', 'else', 'endif', 'while a:', 'while true:', 'while )a:', 'endwhile', 'for v in a:', 'for v, i in a:', 'for v in a +:', 'for v a:', 'endfor', 'break', 'continue',
         'break:', 'x:', 'x :', 'jump x', 'jumpif (a) x', 'jumpif (a b) x', 'jumpif (a)) x', 'jumpif () x', 'return', 'return 1', 'return 1 +', 'return  (a', "include 'a.bare'",
         'include <b.bare>', 'include "c"', "include 'a", 'a = 1', 'a = 1 1', 'a =', 'a == 1', 'a = = 1', 'f(1)', 'f(1', 'f(1,)', '1 +', '# c', '', '   ', 'a = \\', '\\', 'b + \\', 'a = "x', "a = 'it\\'s'",
         'endif x', 'a b', '@', ':', 'é = 1', 'if:', 'endif:', 'return:', 'a = 1:', 'if a: b', '    a = 2', 'x = f(', "s = 'a # b'", 'a = 1 # c', '# c \\', 'if a:\\', 'else if b:', 'elseif b:',
         'function', 'for', 'if', 'while', 'jump', 'jumpif', 'include', 'for v, in a:', 'for in in in:', 'if = 2', 'return = 3', 'jump = 1', 'a: = 2', "include ''", 'include <>', "include 'a' # c",
         'function f(a,):', 'function f(,a):', 'function f(a b):', 'function 1():', 'function f(a...)', 'function f ( a , b ) :', 'async  function  h(a):', 'endfunction x',
         'a = 99999999999999999999' + '9' * 300, 'a = +', 'a = -', 'a = !', 'a = [', 'a = []', 'a = [b c]', 'a.b = 1', 'a[0] = 1', '{}', 'while a', 'while (a', 'a = 1;', 'a := 1', 'a += 1', 'a == b == c', 'a=1']


def gen_soup(rng, params):
    for _ in range(params):
        lines = [rng.choice(WORDS) for _ in range(rng.randrange(1, 8))]
        yield 'text', {'text': rng.choice(['\n', '\n', '\r\n']).join(lines), 'start': rng.choice([1, 1, 1, 10, 0])}


def gen_small(_rng, params):
    """Every text of few structural lines"""
    words = ['function f():', 'endfunction', 'if a:', 'elif b:', 'else:', 'endif', 'while a:', 'endwhile', 'for v in a:', 'endfor', 'break', 'continue', 'a = 1', 'f( \\', 'b)', '# c']
    length, part, parts = params
    for ix, lines in enumerate(itertools.product(words, repeat=length)):
        if ix % parts == part:
            yield 'text', {'text': '\n'.join(lines)}


def mutate(rng, lines):
    lines = list(lines)
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        if not lines:
            break
        ix = rng.randrange(len(lines))
        roll = rng.random()
        if roll < 0.2:
            del lines[ix]
        elif roll < 0.3:
            lines.insert(ix, lines[rng.randrange(len(lines))])
        elif roll < 0.4:
            jx = rng.randrange(len(lines))
            lines[ix], lines[jx] = lines[jx], lines[ix]
        elif roll < 0.55:
            lines.insert(ix, '    ' * rng.randrange(3) + rng.choice(WORDS))
        elif roll < 0.8:
            line = lines[ix]
            pos = rng.randrange(len(line) + 1)
            lines[ix] = line[:pos] + rng.choice(TOKENS + ['']) + line[pos + rng.randrange(2):]
        elif roll < 0.9:
            line = lines[ix]
            pos = rng.randrange(len(line) + 1)
            lines[ix:ix + 1] = [line[:pos] + '\\', line[pos:]]
        elif roll < 0.95:
            lines.insert(ix, rng.choice(['', '# comment', '    ', '  # c', '\t']))
        else:
            lines[ix] = lines[ix] + rng.choice([' ', '\t ', '  # c', ' \\', '\r'])
    return lines


def gen_mutants(rng, params):
    for _ in range(params):
        case = progs.random_case(rng, 4)
        lines = progs.render(case['prog'])
        if len(lines) > 60:
            continue
        for _ in range(4):
            yield 'text', {'text': rng.choice(['\n', '\n', '\r\n']).join(mutate(rng, lines)), 'start': rng.choice([1, 1, 5])}


FRAMES = ['a = {}', '    a = {}', 'return {}', '  return   {}', 'if {}:', '    if  {} :', 'if q:\nelif {}:\nendif', 'while {}:', '  while   {}  :', 'for v in {}:', '   for  v , i  in  {}:',
          'jumpif ({}) x', '   jumpif  ( {} )  x', '{}', '   {}', 'function f():\n    b = {}\nendfunction', 'function f():\n    if {}:\n    endif\nendfunction', 'a = \\\n   {}', 'if c && \\\n   {}:',
          'while d || \\\n\\\n {}  :']
BAD = ['a b', '1 +', '(a', 'f(a', 'f(a b)', 'a +* b', "'x", '"y', '[z', ')', 'a)', '@', 'a @ b', '1 2', 'f(a,)', '(a) b', 'f((a)', "f('x)", 'a == = b', '1e', '-', '!', 'f(', '+', 'a + (b * (c)', '1.2.3', 'a && && b', "'s' 't'",
       '9' * 400]


def gen_frames(rng, params):
    for frame in FRAMES:
        for bad in BAD:
            for pad in ('', 'x1 + ', 'f(1, 2) * ', 'y' * 70 + ' + ', 'z' * 150 + ' + ', "'" + 's' * 100 + "' + "):
                yield 'text', {'text': frame.format(pad + bad)}
                if len(bad) < 20 and not frame.endswith(':'):
                    yield 'text', {'text': frame.format(pad + bad + ' + ' + 'w' * rng.choice([5, 80, 130]))}
                if rng.random() < 0.15:
                    yield 'shift', {'text': frame.format(pad + bad), 'prefix': rand_prefix(rng)}


def rand_prefix(rng):
    return [rng.choice(['# comment', '', '   ', 'pfx = 1', 'pfxCall(2)', '  # x \\', 'pfx = "#"', "    pfx = 'a'"]) for _ in range(rng.randrange(1, 6))]


def gen_shift(rng, params):
    for _ in range(params):
        case = progs.random_case(rng, 3)
        lines = mutate(rng, progs.render(case['prog'])) if rng.random() < 0.6 else [rng.choice(WORDS) for _ in range(rng.randrange(1, 5))]
        yield 'shift', {'text': '\n'.join(lines), 'prefix': rand_prefix(rng), 'start': rng.choice([1, 1, 7, 0])}


def gen_caret(_rng, _params):
    alphabet = ''.join(chr(33 + ix % 90) for ix in range(400))
    for length in list(range(0, 20)) + list(range(55, 70)) + list(range(112, 130)) + list(range(175, 190)) + [239, 240, 241, 242, 300, 400]:
        for column in range(1, length + 2):
            yield 'caret', {'line': alphabet[:length], 'column': column, 'number': 3}
    yield 'caret', {'line': 'abc', 'column': 2, 'number': None}


def gen_exprs(rng, params):
    for _ in range(params):
        roll = rng.random()
        if roll < 0.4:
            text = rng.choice(['', ' ']).join(rng.choice(TOKENS) for _ in range(rng.randrange(0, 9)))
        else:
            text = rand_expr(rng, rng.randrange(1, 5))
            if len(text) > 300:
                continue
            ix = rng.randrange(len(text) + 1)
            text = text[:ix] + rng.choice(TOKENS) + text[ix + rng.randrange(3):]
        yield 'expr', text


CHARS = "ab1=:()'\"[]\\#<> \t\n\n\n\r!+-*,.&|eifx_é\u2028\x0c\x00\U0001f600"


def gen_chars(rng, params):
    for _ in range(params):
        text = ''.join(rng.choice(CHARS) for _ in range(rng.randrange(0, 25)))
        yield 'text', {'text': text}


def tasks(tier):
    quick = tier == 'quick'
    mult = 1 if quick else 15
    res = [(f'soup-{p}', gen_soup, 4000 * mult) for p in range(4)]
    res += [(f'small-{n}-{p}', gen_small, (n, p, 8)) for n in ((1, 2, 3) if quick else (1, 2, 3, 4, 5)) for p in range(8 if n > 2 else 1) if n > 2 or p == 0]
    res += [(f'mutants-{p}', gen_mutants, 500 * mult) for p in range(8)]
    res += [('frames', gen_frames, None), ('caret', gen_caret, None)]
    res += [(f'shift-{p}', gen_shift, 1200 * mult) for p in range(4)]
    res += [(f'exprs-{p}', gen_exprs, 8000 * mult) for p in range(4)]
    res += [(f'chars-{p}', gen_chars, 10000 * mult) for p in range(4)]
    return res
