"""Do two patterns of the host divide the same texts into the same groups? Decided on the marked languages: the texts that a pattern accepts, with marks where the groups
begin and end and where the match ends.

The alphabet is compressed: characters that no character set of the two patterns tells apart are one character (the first of them), which keeps equality and emptiness.
"""

import itertools
import re

import z3

from pyvc import lang
from pyvc.engine import Unsupported
from pyvc.lang import ANY, CHAR, EMPTY, alt, cat, opt, plus, star

# Marks are characters beyond those of the texts
MARK = 0x2f000
TOP = MARK - 1
END = MARK
ROUND = MARK + 0xf01


def mark(code):
    return z3.Re(lang.char(code))


MARKS = z3.Range(lang.char(MARK), lang.char(0x2ffff))
TEXT = z3.Range(lang.char(0), lang.char(TOP))


def char_ranges(op, arg, flags):
    """The characters of a one-character item, as ranges"""
    name = str(op)
    if name == 'LITERAL':
        found, negate = [(arg, arg)], False
    elif name == 'NOT_LITERAL':
        found, negate = [(arg, arg)], True
    elif name == 'ANY':
        found, negate = ([] if flags & re.DOTALL else [(10, 10)]), True
    else:
        items = list(arg)
        negate = bool(items) and str(items[0][0]) == 'NEGATE'
        found = []
        for sub, value in items[1:] if negate else items:
            kind = str(sub)
            if kind == 'LITERAL':
                found.append((value, value))
            elif kind == 'RANGE':
                found.append((value[0], min(value[1], TOP)))
            elif kind == 'CATEGORY':
                lang.category(str(value), flags)
                found.extend((low, min(high, TOP)) for low, high in lang._RANGES[(str(value), flags & re.ASCII)] if low <= TOP)  # pylint: disable=protected-access
            else:
                raise Unsupported(f'{kind} in a pattern')
    return complement(found) if negate else merge(found)


def merge(ranges):
    result = []
    for low, high in sorted(ranges):
        if result and low <= result[-1][1] + 1:
            result[-1] = (result[-1][0], max(high, result[-1][1]))
        else:
            result.append((low, high))
    return tuple(result)


def complement(ranges):
    result, at = [], 0
    for low, high in merge(ranges):
        if low > at:
            result.append((at, low - 1))
        at = high + 1
    if at <= TOP:
        result.append((at, TOP))
    return tuple(result)


BLANK = char_ranges('IN', [('CATEGORY', 'CATEGORY_SPACE')], re.compile('').flags)

ONE = ('LITERAL', 'NOT_LITERAL', 'ANY', 'IN')


def walk(items, flags, found):
    """Collect the character sets of a pattern"""
    for op, arg in items:
        name = str(op)
        if name in ONE:
            found.add(char_ranges(op, arg, flags))
        elif name in ('MAX_REPEAT', 'MIN_REPEAT'):
            walk(arg[2], flags, found)
        elif name == 'SUBPATTERN':
            walk(arg[3], flags, found)
        elif name == 'BRANCH':
            for branch in arg[1]:
                walk(branch, flags, found)
        elif name in ('ASSERT', 'ASSERT_NOT'):
            walk(arg[1], flags, found)


class Alphabet:
    """The classes of characters that the character sets do not tell apart"""

    def __init__(self, sets):
        sets = sorted(set(sets) | {((10, 10),)})
        bounds = sorted({0, TOP + 1} | {low for ranges in sets for low, _ in ranges} | {high + 1 for ranges in sets for _, high in ranges})
        classes = {}
        places = [0] * len(sets)
        for low in bounds[:-1]:
            signature = []
            for ix, ranges in enumerate(sets):
                while places[ix] < len(ranges) and ranges[places[ix]][1] < low:
                    places[ix] += 1
                signature.append(places[ix] < len(ranges) and ranges[places[ix]][0] <= low)
            # The first printable character of the class, if there is one
            key = tuple(signature)
            if key not in classes or not 33 <= classes[key] <= 126 and low > classes[key] and 33 <= low <= 126:
                classes[key] = low
        self.sets = {ranges: [rep for signature, rep in classes.items() if signature[ix]] for ix, ranges in enumerate(sets)}
        self.reps = sorted(classes.values())
        self.all = alt(*[mark(rep) for rep in self.reps])

    def language(self, ranges):
        return alt(*[mark(rep) for rep in sorted(self.sets[ranges])])


class Compile:
    """The marked language of a pattern"""

    def __init__(self, pattern, alphabet, groups, rounds=False):
        self.flags = pattern.flags
        if self.flags & (re.IGNORECASE | re.MULTILINE):
            raise Unsupported('flags of a pattern')
        self.pattern, self.alphabet, self.rounds = pattern, alphabet, rounds
        self.marks = {pattern.groupindex.get(name, name): MARK + 1 + 2 * ix for ix, name in enumerate(groups)}
        for group in self.marks:
            if not isinstance(group, int) or group > pattern.groups:
                raise Unsupported('groups of a pattern')
        self.any = star(alphabet.all)

    def items(self, items, follow=None, ahead=False):
        """The language of a sequence; the assertions speak of what follows, so they need it (follow)"""
        result = follow if follow is not None else EMPTY
        for op, arg in reversed(list(items)):
            name = str(op)
            if name in ONE:
                result = cat(cat(star(MARKS), self.one(op, arg)) if ahead else self.one(op, arg), result)
            elif name in ('ASSERT', 'ASSERT_NOT'):
                if follow is None or arg[0] != 1:
                    raise Unsupported(f'{name} in a pattern')
                sub = self.items(arg[1], cat(star(alt(self.alphabet.all, MARKS))), True)
                result = z3.Intersect(result, sub if name == 'ASSERT' else z3.Complement(sub))
            elif name == 'SUBPATTERN':
                if arg[1] or arg[2]:
                    raise Unsupported('flags in a pattern')
                inner = self.items(arg[3], None, ahead)
                if arg[0] in self.marks and not ahead:
                    inner = cat(mark(self.marks[arg[0]]), inner, mark(self.marks[arg[0]] + 1))
                result = cat(inner, result)
            elif name == 'BRANCH':
                result = cat(alt(*[self.items(branch, None, ahead) for branch in arg[1]]), result)
            elif name == 'MAX_REPEAT':
                low, high, item = arg
                sub = self.items(item, None, ahead)
                if self.rounds and not ahead and not (len(item) == 1 and str(item[0][0]) in ONE) and (low, high) != (0, 1):
                    # Where a round begins
                    sub = cat(mark(ROUND), sub)
                if str(high) == 'MAXREPEAT' or high >= 4294967295:
                    sub = star(sub) if low == 0 else plus(sub) if low == 1 else cat(z3.Loop(sub, low, low), star(sub))
                else:
                    sub = opt(sub) if (low, high) == (0, 1) else z3.Loop(sub, low, high)
                result = cat(sub, result)
            else:
                raise Unsupported(f'{name} in a pattern')
        return result

    def one(self, op, arg):
        return self.alphabet.language(char_ranges(op, arg, self.flags))

    def marked(self, how, end=True):
        """The texts that the method takes, with its marks (with one for the end of the match, end)"""
        items = list(lang.parse(self.pattern))
        start = bool(items) and str(items[0][0]) == 'AT' and str(items[0][1]) in ('AT_BEGINNING', 'AT_BEGINNING_STRING')
        items = items[1:] if start else items
        follow = self.any
        if items and str(items[-1][0]) == 'AT':
            name = str(items[-1][1])
            if name not in ('AT_END', 'AT_END_STRING'):
                raise Unsupported(f'{name} in a pattern')
            follow = alt(EMPTY, mark(10)) if name == 'AT_END' else EMPTY
            items = items[:-1]
        if any(str(op) == 'AT' for op, _ in items):
            raise Unsupported('anchor in a pattern')
        result = self.items(items, cat(mark(END) if end else EMPTY, EMPTY if how == 'fullmatch' else follow))
        if how in ('search', 'sub', 'split', 'findall') and not start:
            result = cat(self.any, mark(MARK + 0xf00), result)
        return result

    def branches(self):
        """Pairs of alternatives, an earlier and a later one"""
        found = []

        def visit(items):
            for op, arg in items:
                name = str(op)
                if name == 'BRANCH':
                    langs = [self.items(branch, None, True) for branch in arg[1]]
                    found.extend((langs[ix], langs[jx]) for jx in range(len(langs)) for ix in range(jx))
                    for branch in arg[1]:
                        visit(branch)
                elif name == 'MAX_REPEAT':
                    visit(arg[2])
                elif name == 'SUBPATTERN':
                    visit(arg[3])
        visit(lang.parse(self.pattern))
        return found


def word_of(language, limit_ms=20000):
    """None if the language is empty, a word of it, or Unsupported where the solver does not tell"""
    solver = z3.Solver()
    solver.set('timeout', limit_ms)
    word = z3.String('word')
    solver.add(z3.InRe(word, language))
    result = solver.check()
    if result == z3.unsat:
        return None
    if result == z3.sat:
        text = solver.model()[word].as_string()
        return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), text)
    raise Unsupported('language of a pattern')


def prepare(live, spec, groups):
    sets = set()
    walk(lang.parse(live), live.flags, sets)
    walk(lang.parse(spec), spec.flags, sets)
    alphabet = Alphabet(sets)
    return alphabet, Compile(live, alphabet, groups), Compile(spec, alphabet, groups)


def compare(live, live_how, spec, how, groups, line, order):
    """[(what, a word that shows it, or None)]: for the texts of one line (line), or for all texts; with the order of alternatives (order)"""
    alphabet, one, other = prepare(live, spec, groups)
    a, b = one.marked(live_how), other.marked(how)
    inside = star(alt(without_line(alphabet) if line else alphabet.all, MARKS))
    results = [('only texts of the form are taken, and divided as the form has it', word_of(z3.Intersect(a, z3.Complement(b), inside))),
               ('all texts of the form are taken', word_of(z3.Intersect(b, z3.Complement(a), inside)))]
    if order and all(word is None for _, word in results):
        # The rounds of the repeats, which decide between two ways to divide a text
        one_round, other_round = Compile(live, alphabet, groups, True).marked(live_how), Compile(spec, alphabet, groups, True).marked(how)
        if word_of(z3.Intersect(one_round, z3.Complement(other_round), inside)) is not None or word_of(z3.Intersect(other_round, z3.Complement(one_round), inside)) is not None:
            text = search(live, live_how, spec, how, alphabet, groups)
            if text is None:
                raise Unsupported('repeats of other rounds')
            return [('a text is divided as the form has it', text)]
    for earlier, later in one.branches() if order else []:
        results.append(('no alternative hides a later, longer one', word_of(z3.Intersect(later, cat(earlier, plus(alt(alphabet.all, MARKS))), inside))))
    return results


def search(live, live_how, spec, how, alphabet, groups, limit=60000):
    """A short text that the two patterns divide differently, or None"""
    def divide(pattern, method, text):
        found = list(pattern.finditer(text)) if method in ('search', 'sub', 'split', 'findall') else [getattr(pattern, method)(text)]
        return [None if match is None else (match.span(), [match.group(group) for group in groups]) for match in found]

    chars, count, length = [chr(code) for code in alphabet.reps if code < 127], 0, 1
    while count + len(chars) ** length <= limit:
        for item in itertools.product(chars, repeat=length):
            text = ''.join(item)
            if divide(live, live_how, text) != divide(spec, how, text):
                return text
        count += len(chars) ** length
        length += 1
    return None


def layout(live, how, errors=None):
    """[(what, a word that shows it, or None)]: blanks before and after a line do not decide whether the pattern takes it (lines of the form errors aside)"""
    sets = {BLANK}
    if errors is not None:
        walk(lang.parse(errors), errors.flags, sets)
    walk(lang.parse(live), live.flags, sets)
    alphabet = Alphabet(sets)
    takes = Compile(live, alphabet, []).marked(how, False)
    blank, line = alphabet.language(BLANK), without_line(alphabet)
    solid = z3.Intersect(line, z3.Complement(blank))
    core = z3.Intersect(takes, alt(EMPTY, solid, cat(solid, star(line), solid)))
    text = cat(star(blank), core, star(blank))
    inside = star(line)
    if errors is not None:
        inside = z3.Intersect(inside, z3.Complement(Compile(errors, alphabet, []).marked('match', False)))
    return [('blanks around a line that is taken leave it taken', word_of(z3.Intersect(text, z3.Complement(takes), inside))),
            ('a line that is taken is taken without the blanks around it', word_of(z3.Intersect(takes, z3.Complement(text), inside)))]


def without_line(alphabet):
    return z3.Intersect(alphabet.all, z3.Complement(mark(10)))
