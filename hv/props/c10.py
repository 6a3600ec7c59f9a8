"""C10: the model depends only on the logical lines"""

import re

from hv import progs
from hv.props.c02 import rand_expr

TITLE = 'layout independence of the parser'
RULE = ('random programs (every statement kind, strings with layout characters) rewritten by: CRLF, chunked input (lists, tuples, generators, kept empty chunks), blank '
        'and comment lines anywhere including inside continued lines, indentation and trailing whitespace, backslash breaks at token boundaries, optional spaces between '
        'tokens; interleaved and repeated parses; non-trivial: at least one rewriting applied')

#
# Token-level rendering: '' between tokens = a space is allowed there; ' ' = required
#

TOKEN = re.compile(r'''\s*('(?:\\\\|\\'|[^'])*'|"(?:\\\\|\\"|[^"])*"|\[[^\]]*\]|[0-9]+(?:\.[0-9]*)?(?:e[+-][0-9]+)?|[A-Za-z_]\w*|\*\*|<=|>=|==|!=|&&|\|\||[-+*/%<>!(),])''')


def tokens_of(text):
    """The expression's tokens, or None"""
    res = []
    pos = 0
    text = text.strip()
    while pos < len(text):
        match = TOKEN.match(text, pos)
        if match is None:
            return None
        res.append(match.group(1))
        pos = match.end()
    return res


def word(tok):
    return tok[0].isalnum() or tok[0] == '_'


def line_tokens(st):
    """The token lists of the statement's own lines: [(tokens)], with sub-blocks as nested lists"""
    kind = st[0]
    if kind == 'expr':
        return tokens_of(st[1])
    if kind == 'assign':
        return [st[1], '='] + tokens_of(st[2])
    if kind == 'return':
        return ['return'] + (tokens_of(st[1]) if st[1] is not None else [])
    return [kind]


def tokenize_prog(prog, depth, out):
    for st in prog:
        kind = st[0]
        if kind == 'if':
            for ix, (cond, body) in enumerate(st[1]):
                out.append((depth, ['if' if ix == 0 else 'elif', ' '] + tokens_of(cond) + [':']))
                tokenize_prog(body, depth + 1, out)
            if st[2] is not None:
                out.append((depth, ['else', ':']))
                tokenize_prog(st[2], depth + 1, out)
            out.append((depth, ['endif']))
        elif kind == 'while':
            out.append((depth, ['while', ' '] + tokens_of(st[1]) + [':']))
            tokenize_prog(st[2], depth + 1, out)
            out.append((depth, ['endwhile']))
        elif kind == 'for':
            out.append((depth, ['for', ' ', st[1]] + ([',', st[2]] if st[2] is not None else []) + [' ', 'in', ' '] + tokens_of(st[3]) + [':']))
            tokenize_prog(st[4], depth + 1, out)
            out.append((depth, ['endfor']))
        elif kind == 'func':
            args = []
            for arg in st[2]:
                args += [',', arg] if args else [arg]
            out.append((depth, ['function', ' ', st[1], '('] + args + (['...'] if st[3] else []) + [')', ':']))
            tokenize_prog(st[4], depth + 1, out)
            out.append((depth, ['endfunction']))
        elif kind == 'raw':
            out.append((depth, list(st[1])))
        elif kind == 'return' and st[1] is not None:
            out.append((depth, ['return', ' '] + tokens_of(st[1])))
        else:
            out.append((depth, line_tokens(st)))


def canonical(lines):
    res = []
    for depth, toks in lines:
        text = ''
        for tok in toks:
            if tok == ' ':
                text += ' ' if not text.endswith(' ') else ''
            else:
                text += (' ' if text and word(tok) and (text[-1].isalnum() or text[-1] == '_') else '') + tok
        res.append('    ' * depth + text)
    return res


class Layout:
    """A rewriting of the token lines"""

    def __init__(self, rng, spaces, breaks, fill, indent, trail):
        self.rng = rng
        self.spaces, self.breaks, self.fill, self.indent, self.trail = spaces, breaks, fill, indent, trail

    def filler(self, chance):
        rng = self.rng
        res = []
        while rng.random() < chance:
            res.append(rng.choice(['', '   ', '\t', '# comment', '    # a = 1', '#', '# c \\', '#\\', '  #if a:', "# it's"]))
        return res

    def line(self, depth, toks):
        rng = self.rng
        out = []
        text = rng.choice(['', ' ', '   ', '\t', '        ']) if self.indent else '    ' * depth
        if self.breaks and rng.random() < self.breaks / 4:
            # Break before the first token
            out.append(text + '\\')
            out.extend(self.filler(self.fill))
            text = rng.choice(['', '    '])
        fresh = True
        required = False
        for tok in toks:
            if tok == ' ':
                required = True
                continue
            if not fresh:
                last = text[-1:] if text.strip() else ''
                need = required or (word(tok) and (last.isalnum() or last == '_'))
                if rng.random() < self.breaks:
                    out.append(text + rng.choice(['\\', ' \\', '  \\  ', '\\ ', '\t\\\t']))
                    out.extend(self.filler(self.fill))
                    text = rng.choice(['', '  ', '\t', '      '])
                elif rng.random() < self.spaces:
                    text += rng.choice([' ', '  ', '\t', ' \t '])
                elif need:
                    text += ' '
            text += tok
            fresh = False
            required = False
        out.append(text + (rng.choice(['', ' ', '   ', '\t', ' \t']) if self.trail else ''))
        return out

    def lines(self, lines):
        res = self.filler(self.fill)
        for depth, toks in lines:
            res.extend(self.line(depth, toks))
            res.extend(self.filler(self.fill))
        return res


def feed(rng, lines, mode):
    """The input object of parse_script"""
    if mode == 'lf':
        return '\n'.join(lines)
    if mode == 'crlf':
        return '\r\n'.join(lines)
    if mode == 'mixed':
        return ''.join(line + rng.choice(['\n', '\r\n']) for line in lines)
    chunks = []
    pos = 0
    while pos < len(lines):
        size = rng.randrange(1, 5)
        chunks.append(rng.choice(['\n', '\r\n']).join(lines[pos:pos + size]) + rng.choice(['', '', '\n', '\r\n']))
        pos += size
        if rng.random() < 0.1:
            chunks.append('')
    return chunks


def as_input(obj, how):
    if isinstance(obj, str):
        return obj
    return {'list': lambda: list(obj), 'tuple': lambda: tuple(obj), 'gen': lambda: (chunk for chunk in obj), 'dict': lambda: dict.fromkeys(obj) if len(set(obj)) == len(obj) else list(obj)}[how]()


def check_layout(case):
    from bare_script import parse_script  # pylint: disable=import-outside-toplevel
    base = parse_script(case['base'])
    got = parse_script(as_input(case['variant'], case.get('how', 'list')))
    if got != base:
        return f'model differs: {case["variant"]!r} parses to {got!r}, the canonical layout {case["base"]!r} to {base!r}'
    if repr(got) != repr(base):
        return f'model differs in types or order: {got!r} and {base!r}'
    again = parse_script(as_input(case['variant'], case.get('how', 'list')))
    if again != got:
        return 'model differs between two parses of the same text'
    return None


def outcome(fn, arg):
    from bare_script import BareScriptParserError  # pylint: disable=import-outside-toplevel
    try:
        return repr(fn(arg))
    except BareScriptParserError as exc:
        return ['error', str(exc), exc.line_number, exc.column_number]


def check_state(case):
    """Determinism: other parses (failing ones too) leave no trace; results are not shared"""
    from bare_script import parse_expression, parse_script  # pylint: disable=import-outside-toplevel
    first = outcome(parse_script, case['base'])
    parse = {'script': parse_script, 'expr': parse_expression}
    before = [outcome(parse[kind], text) for kind, text in case['others']]
    second = outcome(parse_script, case['base'])
    if first != second:
        return f'model differs after other parses: {second!r}, first {first!r}'
    after = [outcome(parse[kind], text) for kind, text in reversed(case['others'])][::-1]
    if before != after:
        bad = [pair for pair in zip(before, after) if pair[0] != pair[1]][0]
        return f'parse depends on history: {bad!r}'
    # Mutating a result does not change later results
    try:
        model = parse_script(case['base'])
    except Exception:  # pylint: disable=broad-exception-caught
        return None
    scramble(model)
    third = outcome(parse_script, case['base'])
    if third != first:
        return f'model is shared between calls: {third!r}, first {first!r}'
    return None


def scramble(model):
    if isinstance(model, dict):
        for val in list(model.values()):
            scramble(val)
        model['hv'] = 1
    elif isinstance(model, list):
        for val in model:
            scramble(val)
        model.append('hv')


CHECKS = {'layout': check_layout, 'state': check_state}


def nontrivial(kind, case):
    return kind == 'state' or case['base'] != case['variant']


RAW = [['lbl1', ':'], ['jump', ' ', 'lbl1'], ['jumpif', '(', 'a', '==', '1', ')', ' ', 'lbl1'], ['include', ' ', "'a b.bare'"], ['include', ' ', '<sys.bare>'], ['s', '=', "'a  \\\\'"],
       ['s', '=', "' # not a comment'"], ['s', '=', '"x = 1"'], ['f', '(', "'a,b'", ',', '"(c)"', ')'], ['s', '=', "'tab\there'"], ['s', '=', "'#'", '+', '"#"'], ['x', '=', '-', '1'],
       ['async', ' ', 'function', ' ', 'af1', '(', 'a', ',', 'b', '...', ')', ':'], ['y', '=', '[k 1]', '*', '2'], ['z', '=', '5', '-', '3'], ['w', '=', '!', 'a'], ['u', '=', "'\\\\'"]]


def gen_case(rng):
    prog = progs.random_case(rng, 3)['prog']
    for _ in range(rng.randrange(0, 4)):
        toks = rng.choice(RAW)
        if toks[0] == 'async':
            prog.append(['raw', toks])
            prog.append(['raw', ['return', ' ', 'a', '+', 'b']])
            prog.append(['raw', ['endfunction']])
        else:
            prog.insert(rng.randrange(len(prog) + 1), ['raw', toks])
    if rng.random() < 0.5:
        text = rand_expr(rng, 4)
        if '\n' not in text and tokens_of(text) is not None and len(text) < 150 and not re.search(r'\[\s|\[[^\]]*\s\]|\\\]|\+\d|\\', text):
            prog.append(['assign', 'e1', text])
    lines = []
    tokenize_prog(prog, 0, lines)
    return lines


def gen_layout(rng, params):
    from bare_script import BareScriptParserError, parse_script  # pylint: disable=import-outside-toplevel
    for _ in range(params):
        lines = gen_case(rng)
        base = '\n'.join(canonical(lines))
        try:
            parse_script(base)
        except BareScriptParserError:
            continue
        for _ in range(4):
            on = lambda val: val if rng.random() < 0.5 else 0
            layout = Layout(rng, on(0.4), on(rng.choice([0.05, 0.2, 0.6])), on(0.3), on(1), on(1))
            variant = feed(rng, layout.lines(lines), rng.choice(['lf', 'lf', 'crlf', 'mixed', 'chunks', 'chunks']))
            yield 'layout', {'base': base, 'variant': variant, 'how': rng.choice(['list', 'tuple', 'gen', 'dict'])}


def gen_state(rng, params):
    from hv.props.c06 import WORDS, mutate  # pylint: disable=import-outside-toplevel
    for _ in range(params):
        lines = progs.render(progs.random_case(rng, 3)['prog'])
        others = []
        for _ in range(rng.randrange(1, 4)):
            if rng.random() < 0.5:
                others.append(['expr', rand_expr(rng, 3)])
            else:
                others.append(['script', '\n'.join(rng.choice(WORDS) for _ in range(rng.randrange(1, 6)))])
        if rng.random() < 0.3:
            others.append(others[0])
        yield 'state', {'base': '\n'.join(mutate(rng, lines) if rng.random() < 0.3 else lines), 'others': others}


EXAMPLES = ["if a:", "    b = f(1, 2) + 'x y'", "elif c == 1 && d:", "    return b", "else:", "    jumpif (a) lbl", "endif", "lbl:", "for v, i in arrayNew(1, 2):", "    continue", "endfor",
            "while true:", "    break", "endwhile", "function f(a, b...):", "    return", "endfunction", "include 'a.bare'", "include <b.bare>", "f('it\\'s')"]


def gen_breaks(_rng, _params):
    """One break at every space of every statement kind; one blank/comment line at every position"""
    base = '\n'.join(EXAMPLES)
    for ix, line in enumerate(EXAMPLES):
        in_string = False
        for pos, ch in enumerate(line):
            if ch == "'" and line[pos - 1] != '\\':
                in_string = not in_string
            if ch == ' ' and not in_string and line[:pos].strip():
                for filler in ([], [''], ['# c'], ['  # c \\', '   ']):
                    lines = EXAMPLES[:ix] + [line[:pos] + ' \\'] + filler + ['    ' + line[pos:]] + EXAMPLES[ix + 1:]
                    yield 'layout', {'base': base, 'variant': '\n'.join(lines)}
                    yield 'layout', {'base': base, 'variant': '\r\n'.join(lines)}
                    yield 'layout', {'base': base, 'variant': lines}
        for filler in ('', '   ', '# c', '# c \\', '\t#'):
            for sep in ('\n', '\r\n'):
                yield 'layout', {'base': base, 'variant': sep.join(EXAMPLES[:ix] + [filler] + EXAMPLES[ix:])}
        for left, right in (('  ', ''), ('', '  '), ('\t', '\t'), ('', ' \t ')):
            for sep in ('\n', '\r\n'):
                yield 'layout', {'base': base, 'variant': sep.join(EXAMPLES[:ix] + [left + line + right] + EXAMPLES[ix + 1:])}
    for cut in range(len(EXAMPLES) + 1):
        yield 'layout', {'base': base, 'variant': ['\n'.join(EXAMPLES[:cut]), '\n'.join(EXAMPLES[cut:])]}
        yield 'layout', {'base': base, 'variant': ['\r\n'.join(EXAMPLES[:cut]), '\n'.join(EXAMPLES[cut:])]}
    for how in ('list', 'tuple', 'gen', 'dict'):
        yield 'layout', {'base': base, 'variant': EXAMPLES, 'how': how}
    yield 'layout', {'base': '', 'variant': []}
    yield 'layout', {'base': '', 'variant': ['']}
    yield 'layout', {'base': '', 'variant': '\r\n\r\n'}


def tasks(tier):
    quick = tier == 'quick'
    res = [('breaks', gen_breaks, None)]
    res += [(f'layout-{p}', gen_layout, 280 if quick else 10000) for p in range(12)]
    res += [(f'state-{p}', gen_state, 300 if quick else 6000) for p in range(4)]
    return res
