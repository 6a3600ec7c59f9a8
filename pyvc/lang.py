"""Languages of the host's regular expressions, as regular expressions of the solver"""

import re

import z3

from pyvc.engine import PathEnd, Unsupported

STRING = z3.StringSort()
RE = z3.ReSort(STRING)
ANY = z3.Full(RE)
CHAR = z3.AllChar(RE)
EMPTY = z3.Re('')
NONE = z3.Empty(RE)
MAX_CHAR = 0x2ffff

_CATEGORY = {'CATEGORY_DIGIT': r'\d', 'CATEGORY_NOT_DIGIT': r'\D', 'CATEGORY_SPACE': r'\s', 'CATEGORY_NOT_SPACE': r'\S', 'CATEGORY_WORD': r'\w',
             'CATEGORY_NOT_WORD': r'\W'}
_RANGES = {}


def char(code):
    return z3.Unit(z3.CharVal(code))


def lit(text):
    """The language of one text"""
    if text == '':
        return EMPTY
    return cat(*[z3.Re(char(ord(c))) for c in text])


def chars(texts):
    return alt(*[lit(text) for text in texts])


def span(low, high):
    """One character of a range"""
    if low == high:
        return z3.Re(char(low))
    return z3.Range(char(low), char(high))


def alt(*items):
    items = list(items)
    return NONE if not items else items[0] if len(items) == 1 else z3.Union(*items)


def cat(*items):
    items = [item for item in items if item is not EMPTY]
    return EMPTY if not items else items[0] if len(items) == 1 else z3.Concat(*items)


def star(item):
    return z3.Star(item)


def plus(item):
    return z3.Plus(item)


def opt(item):
    return z3.Option(item)


def without(a, b):
    return z3.Intersect(a, z3.Complement(b))


# Where the texts are known to be ASCII
ASCII = re.ASCII


def category(name, flags):
    """The characters of a category, as ranges"""
    key = (name, flags & re.ASCII)
    if key not in _RANGES:
        pattern = re.compile(_CATEGORY[name], flags & re.ASCII)
        ranges, first = [], None
        for code in range(MAX_CHAR + 2):
            inside = code <= MAX_CHAR and pattern.match(chr(code)) is not None
            if inside and first is None:
                first = code
            elif not inside and first is not None:
                ranges.append((first, code - 1))
                first = None
        _RANGES[key] = ranges
    return alt(*[span(low, high) for low, high in _RANGES[key]])


def parse(pattern):
    from re import _parser  # pylint: disable=import-outside-toplevel
    return _parser.parse(pattern.pattern, pattern.flags)


def language(items, flags):
    """The texts that a sequence of parsed items can consume (no anchors, assertions or back references)"""
    if flags & re.IGNORECASE:
        raise Unsupported('case-insensitive pattern')
    parts = []
    for op, arg in items:
        name = str(op)
        if name == 'LITERAL':
            parts.append(lit(chr(arg)))
        elif name == 'NOT_LITERAL':
            parts.append(without(CHAR, lit(chr(arg))))
        elif name == 'ANY':
            parts.append(CHAR if flags & re.DOTALL else without(CHAR, lit('\n')))
        elif name == 'IN':
            parts.append(charset(arg, flags))
        elif name == 'SUBPATTERN':
            if arg[1] or arg[2]:
                raise Unsupported('flags in a pattern')
            parts.append(language(arg[3], flags))
        elif name == 'ATOMIC_GROUP':
            raise Unsupported('atomic group in a pattern')
        elif name == 'BRANCH':
            parts.append(alt(*[language(branch, flags) for branch in arg[1]]))
        elif name in ('MAX_REPEAT', 'MIN_REPEAT'):
            low, high, item = arg
            sub = language(item, flags)
            if str(high) == 'MAXREPEAT' or high >= 4294967295:
                parts.append(star(sub) if low == 0 else plus(sub) if low == 1 else cat(z3.Loop(sub, low, low), star(sub)))
            else:
                parts.append(opt(sub) if (low, high) == (0, 1) else z3.Loop(sub, low, high))
        else:
            raise Unsupported(f'{name} in a pattern')
    return cat(*parts)


def charset(items, flags):
    items = list(items)
    negate = bool(items) and str(items[0][0]) == 'NEGATE'
    found = []
    for op, arg in items[1:] if negate else items:
        name = str(op)
        if name == 'LITERAL':
            found.append(lit(chr(arg)))
        elif name == 'RANGE':
            found.append(span(arg[0], min(arg[1], MAX_CHAR)))
        elif name == 'CATEGORY':
            found.append(category(str(arg), flags))
        else:
            raise Unsupported(f'{name} in a pattern')
    result = alt(*found)
    return without(CHAR, result) if negate else result


def ending(item, flags):
    """The texts that may follow at an end anchor"""
    name = str(item[1])
    if name == 'AT_END_STRING':
        return EMPTY
    if name == 'AT_END':
        return alt(EMPTY, cat(lit('\n'), ANY)) if flags & re.MULTILINE else alt(EMPTY, lit('\n'))
    raise Unsupported(f'{name} in a pattern')


def split_anchors(items, flags):
    """(anchored at the start?, consumed items, the language of what may follow)"""
    items = list(items)
    start, follow = False, ANY
    if items and str(items[0][0]) == 'AT' and str(items[0][1]) in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
        if flags & re.MULTILINE and str(items[0][1]) == 'AT_BEGINNING':
            raise Unsupported('anchor in a pattern')
        start = True
        items = items[1:]
    if items and str(items[-1][0]) == 'AT':
        follow = ending(items[-1], flags)
        items = items[:-1]
    elif items and str(items[-1][0]) == 'ASSERT' and items[-1][1][0] == 1:
        follow = following(items[-1][1][1], flags)
        items = items[:-1]
    return start, items, follow


def following(items, flags):
    """The language of the rest of the text that a look-ahead accepts"""
    items = list(items)
    if len(items) == 1 and str(items[0][0]) == 'BRANCH':
        return alt(*[following(branch, flags) for branch in items[0][1][1]])
    start, consumed, follow = split_anchors(items, flags)
    if start:
        raise Unsupported('anchor in a look-ahead')
    return cat(language(consumed, flags), follow)


def accepts(pattern, how):
    """The texts on which pattern.match / fullmatch / search succeed"""
    start, items, follow = split_anchors(parse(pattern), pattern.flags)
    body = language(items, pattern.flags)
    if how == 'fullmatch':
        return body
    body = cat(body, follow)
    return body if how == 'match' or start else cat(ANY, body)


_DECIDED = {}


def empty(language):
    """Is the language empty? (None: the solver does not tell)"""
    key = language.sexpr()
    if key not in _DECIDED:
        solver = z3.Solver()
        solver.set('timeout', 20000)
        solver.add(z3.InRe(z3.String('word'), language))
        result = solver.check()
        _DECIDED[key] = True if result == z3.unsat else False if result == z3.sat else None
    return _DECIDED[key]


def is_empty(ip, language, what):
    """Claim: the language is empty"""
    result = empty(language)
    if result is None:
        ip.stats.vcs += 1
        ip.stats.unknown.append(f'{what}: language')
        raise PathEnd()
    ip.prove(result, what)


def included(ip, a, b, what):
    """Claim: every word of a is in b"""
    is_empty(ip, without(a, b), what)


def decide(a, b):
    """Are the words of a in b? True: all of them, False: none of them, None: neither, or not known"""
    if empty(z3.Intersect(a, b)):
        return False
    return True if empty(without(a, b)) else None


def first_chars(items, flags):
    """(the characters that a word of the items can start with, can it be empty?)"""
    found, empty = [], True
    for op, arg in items:
        name = str(op)
        if name in ('MAX_REPEAT', 'MIN_REPEAT'):
            sub, nothing = first_chars(arg[2], flags)
            found.append(sub)
            if arg[0] > 0 and not nothing:
                empty = False
        elif name == 'SUBPATTERN':
            sub, nothing = first_chars(arg[3], flags)
            found.append(sub)
            empty = nothing
        elif name == 'BRANCH':
            subs = [first_chars(branch, flags) for branch in arg[1]]
            found.extend(sub for sub, _ in subs)
            empty = any(nothing for _, nothing in subs)
        else:
            found.append(language([(op, arg)], flags))
            empty = False
        if not empty:
            return alt(*found), False
        empty = True
    return alt(*found), True


def deterministic(ip, items, flags, what, follow=NONE):
    """Claim: at every choice of the items the next character decides it (so that the greedy match takes the whole of a word of the language)"""
    items = list(items)
    for ix in range(len(items) - 1, -1, -1):
        op, arg = items[ix]
        name = str(op)
        if name in ('MAX_REPEAT', 'MIN_REPEAT'):
            if name == 'MIN_REPEAT':
                raise Unsupported('lazy repetition')
            sub, nothing = first_chars(arg[2], flags)
            if nothing:
                raise Unsupported('repetition of nothing')
            is_empty(ip, z3.Intersect(sub, follow), f'{what}: going on and leaving a repetition differ in the next character')
            deterministic(ip, arg[2], flags, what, alt(sub, follow) if arg[1] > 1 else follow)
        elif name == 'SUBPATTERN':
            deterministic(ip, arg[3], flags, what, follow)
        elif name == 'BRANCH':
            raise Unsupported('alternatives')
        sub, nothing = first_chars([items[ix]], flags)
        follow = alt(sub, follow) if nothing else sub


def alphabet(language):
    """A language of single characters that holds every character of the words of the language"""
    found = []
    todo = [language]
    while todo:
        node = todo.pop()
        name = node.decl().name()
        if name == 'str.to_re':
            text = node.arg(0).as_string() if z3.is_string_value(node.arg(0)) else None
            if text is None:
                found.append(node)
            elif text:
                found.append(chars(text))
        elif name == 're.range':
            found.append(node)
        elif name in ('re.union', 're.++', 're.*', 're.+', 're.opt', 're.loop'):
            todo.extend(node.children())
        else:
            return CHAR
    return alt(*found)
