"""Reference statement-level reader: logical lines, line classification and block structure (C06, C10).

Written from the language documentation and the property statements. It predicts whether a text is accepted and, if not, the logical line of the
first error; expression texts are judged by the reference expression parser (specs/expr_spec.py).
"""

from specs.expr_spec import IDENT_START, is_word, ref_parse


def split_lines(text):
    """Physical lines: LF or CRLF ends"""
    return [line[:-1] if line.endswith('\r') and not last else line for line, last in _with_last(text.split('\n'))]


def _with_last(parts):
    for ix, part in enumerate(parts):
        yield part, ix == len(parts) - 1


def ignorable(line):
    text = line.strip()
    return text == '' or text.startswith('#')


def logical_lines(text):
    """[(physical index, logical text, complete)]"""
    res = []
    parts, start = [], None
    for ix, line in enumerate(split_lines(text)):
        if ignorable(line):
            continue
        stripped = line.rstrip()
        if start is None:
            start = ix
        if stripped.endswith('\\'):
            part = stripped[:-1]
            parts.append(part.strip() if parts else part.rstrip())
            continue
        if parts:
            parts.append(line.strip())
            res.append((start, ' '.join(parts), True))
            parts = []
        else:
            res.append((start, line, True))
        start = None
    if parts:
        res.append((start, ' '.join(parts), False))
    return res


def _ident(text, pos):
    """(name, end) of the identifier at pos"""
    if pos >= len(text) or text[pos] not in IDENT_START:
        return None, pos
    end = pos + 1
    while end < len(text) and is_word(text[end]):
        end += 1
    return text[pos:end], end


def _space(text, pos):
    while pos < len(text) and text[pos].isspace():
        pos += 1
    return pos


def is_ident(text):
    name, end = _ident(text, 0)
    return name is not None and end == len(text)


def classify(line):
    """(kind, payload): the statement kind of a logical line. payload: kind-specific; expressions as (offset, text)"""
    start = _space(line, 0)
    word, end = _ident(line, start)
    after = _space(line, end)
    body = line.rstrip()
    # Assignment: name = expression (but not ==)
    if word is not None and after < len(line) and line[after] == '=' and not line.startswith('==', after):
        expr = _space(line, after + 1)
        if expr < len(line):
            return 'assign', (word, expr, line[expr:])
        if after + 1 < len(line):
            # Only blanks after the equal sign
            return 'assign', (word, len(line) - 1, line[-1])
    if word in ('function', 'async'):
        header = _function(line)
        if header is not None:
            return 'function', header
    if word is not None and end == len(body):
        if word in ('endfunction', 'endif', 'endwhile', 'endfor', 'break', 'continue'):
            return word, None
        if word == 'return':
            return 'return', None
    if body.endswith(':'):
        inner = body[:-1]
        if word in ('if', 'elif', 'while') and end < after and after < len(inner):
            return word, (after, inner[after:])
        if word == 'else' and inner.strip() == 'else':
            return 'else', None
        if word == 'for':
            header = _for(line, end, len(inner))
            if header is not None:
                return 'for', header
        if is_ident(inner.strip()):
            return 'label', inner.strip()
    if word == 'jump' and end < after:
        name, stop = _ident(body, after)
        if name is not None and stop == len(body):
            return 'jump', (name, None)
    if word == 'jumpif' and line.startswith('(', after):
        # The label is the last word, after a closing parenthesis and blanks
        name_start = len(body)
        while name_start > 0 and is_word(body[name_start - 1]):
            name_start -= 1
        name = body[name_start:]
        close = body[:name_start].rstrip()
        if is_ident(name) and len(close) < name_start and close.endswith(')') and len(close) - 1 > after + 1:
            return 'jump', (name, (after + 1, close[after + 1:-1]))
    if word == 'return' and end < after and after < len(body):
        return 'return', (after, body[after:])
    if word == 'include' and end < after:
        rest = body[after:]
        if rest.startswith("'") and len(rest) >= 2 and rest.endswith("'") and _quoted(rest):
            return 'include', (rest[1:-1].replace("\\'", "'"), False)
        if rest.startswith('<') and rest.endswith('>') and '>' not in rest[1:-1]:
            return 'include', (rest[1:-1], True)
    return 'expr', (0, line)


def _quoted(rest):
    """One quoted text, quotes inside are escaped"""
    inner = rest[1:-1]
    pos = 0
    while pos < len(inner):
        if inner.startswith("\\'", pos):
            pos += 2
        elif inner[pos] == "'":
            return False
        else:
            pos += 1
    # The closing quote must not be the escaped one
    return True


def _function(line):
    pos = _space(line, 0)
    word, pos = _ident(line, pos)
    is_async = word == 'async'
    if is_async:
        nxt = _space(line, pos)
        word, pos2 = _ident(line, nxt)
        if word != 'function' or nxt == pos:
            return None
        pos = pos2
    name_at = _space(line, pos)
    if name_at == pos:
        return None
    name, pos = _ident(line, name_at)
    if name is None:
        return None
    pos = _space(line, pos)
    if not line.startswith('(', pos):
        return None
    pos += 1
    args = []
    while True:
        pos = _space(line, pos)
        if not args and (line.startswith(')', pos) or line.startswith('...', pos)):
            break
        arg, pos = _ident(line, pos)
        if arg is None:
            return None
        args.append(arg)
        pos = _space(line, pos)
        if line.startswith(',', pos):
            pos += 1
            continue
        break
    last = line.startswith('...', pos)
    if last:
        pos = _space(line, pos + 3)
    if not line.startswith(')', pos):
        return None
    pos = _space(line, pos + 1)
    if not line.startswith(':', pos) or line[pos + 1:].strip() != '':
        return None
    return name, args, last, is_async


def _for(line, pos, stop):
    at = _space(line, pos)
    if at == pos:
        return None
    value, pos = _ident(line, at)
    if value is None:
        return None
    index = None
    at = _space(line, pos)
    if line.startswith(',', at):
        at = _space(line, at + 1)
        index, pos = _ident(line, at)
        if index is None:
            return None
        at = _space(line, pos)
    if at == pos:
        return None
    word, pos = _ident(line, at)
    if word != 'in':
        return None
    at = _space(line, pos)
    if at == pos or at >= stop:
        return None
    return value, index, (at, line[at:stop])


class Rejected(Exception):
    def __init__(self, index, line, columns, what):
        super().__init__(what)
        self.index = index
        self.line = line
        self.columns = columns
        self.what = what


class Ambiguous(Exception):
    """A backslash before a quote: the language does not say whether it escapes"""


def expr_column(text, offset):
    """The line column the expression parser reports for a malformed expression at the offset"""
    from bare_script import BareScriptParserError, parse_expression  # pylint: disable=import-outside-toplevel
    try:
        parse_expression(text)
    except BareScriptParserError as exc:
        return offset + exc.column_number
    if '\\' in text:
        raise Ambiguous()
    return -1


def read(text):
    """The statements [(index, line, kind, payload)] - raises Rejected at the first offending logical line"""
    res = []
    stack = []
    func = None
    for index, line, complete in logical_lines(text):
        if not complete:
            raise Rejected(index, line, None, 'continuation')
        kind, payload = classify(line)
        # Expressions
        exprs = []
        if kind == 'assign':
            exprs = [payload[1:]]
        elif kind in ('if', 'elif', 'while', 'expr') or (kind == 'return' and payload is not None):
            exprs = [payload]
        elif kind == 'for':
            exprs = [payload[2]]
        elif kind == 'jump' and payload[1] is not None:
            exprs = [payload[1]]
        columns = [expr_column(etext, offset) for offset, etext in exprs if ref_parse(etext) is None]
        # Structure
        bad = None
        floor = func[2] if func is not None else 0
        top = stack[-1] if len(stack) > floor else None
        if kind == 'function':
            if func is not None:
                bad = 'nested function'
            else:
                func = (index, line, len(stack))
        elif kind == 'endfunction':
            if func is None:
                bad = 'no function'
            elif top is not None:
                raise Rejected(top[1], top[2], [1], 'open block at endfunction')
            else:
                func = None
        elif kind in ('if', 'while', 'for'):
            if not columns:
                stack.append([kind, index, line, False])
        elif kind in ('elif', 'else'):
            if top is None or top[0] != 'if':
                bad = 'no if'
            elif top[3]:
                bad = 'after else'
            elif kind == 'else':
                top[3] = True
        elif kind in ('endif', 'endwhile', 'endfor'):
            if top is None or top[0] != kind[3:]:
                bad = 'no block'
            else:
                stack.pop()
        elif kind in ('break', 'continue'):
            if not any(entry[0] in ('while', 'for') for entry in stack[floor:]):
                bad = 'no loop'
        if bad is not None or columns:
            raise Rejected(index, line, ([1] if bad is not None else []) + columns, bad or 'expression')
        res.append((index, line, kind, payload))
    if stack or func is not None:
        opens = [Rejected(entry[1], entry[2], [1], 'open block') for entry in stack[-1:]] + ([Rejected(func[0], func[1], [1], 'open function')] if func is not None else [])
        raise Opened(opens)
    return res


class Opened(Exception):
    """Blocks left open at end of input: any of them may be reported"""
    def __init__(self, rejects):
        super().__init__('open block')
        self.rejects = rejects
