"""Obligations of numbers and texts (C13): what a number prints as, and what a text parses to"""

import datetime
import json
import re

import z3

from bare_script import parser as parser_mod
from bare_script import value as value_mod
from pyvc import lang
from pyvc.dsl import inline, obligation, outcome, prove_same
from pyvc.engine import EObj, Model, SDict, SV, Unsupported, func, ival, str_term
from pyvc.lang import ANY, CHAR, NONE, alphabet, alt, cat, lit, opt, plus, span, star
from pyvc.models import MICROS_MAX, Match, NonFinite, uf_partial
from pyvc.obs import parsex
from pyvc.terms import SCRIPT_KINDS, V
from specs import value_spec

DIGIT, NONZERO = span(48, 57), span(49, 57)
SIGN = opt(lit('-'))
# The texts of str(int) and str(float) of finite numbers, and of the number literals that float() accepts (host facts)
INT = cat(SIGN, alt(lit('0'), cat(NONZERO, star(DIGIT))))
FRACTION = cat(star(DIGIT), NONZERO)
FLOAT = alt(cat(INT, lit('.'), alt(lit('0'), FRACTION)), cat(SIGN, NONZERO, opt(cat(lit('.'), FRACTION)), lit('e'), lang.chars('+-'), DIGIT, plus(DIGIT)))
ZEROS = cat(lit('.'), plus(lit('0')))


class Form:
    """What is known of a text: segments (term, the language of the segment)"""

    def __init__(self, *segments):
        self.segments = segments
        self.term = z3.Concat(*[term for term, _ in segments]) if len(segments) > 1 else segments[0][0]
        self.language = cat(*[language for _, language in segments])


def known(ip, *segments):
    """A text of segments: literal texts, or (term, language)"""
    form = Form(*[(z3.StringVal(seg), lit(seg)) if isinstance(seg, str) else seg for seg in segments])
    for term, language in form.segments:
        if not z3.is_string_value(term):
            ip.assume(z3.InRe(term, language))
            ip.text_forms[term.get_id()] = Form((term, language))
    ip.text_forms[form.term.get_id()] = form
    return form.term


def form_of(ip, t):
    form = ip.text_forms.get(t.get_id())
    if form is None and z3.is_string_value(t):
        form = Form((t, lit(t.as_string())))
    if form is None and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        parts = [form_of(ip, child) for child in t.children()]
        if None not in parts:
            form = ip.text_forms[t.get_id()] = Form(*[seg for part in parts for seg in part.segments])
            form.alive = t
    return form


def text_contains(ip, t, part):
    form = form_of(ip, t)
    return lang.decide(form.language, cat(ANY, lit(part.as_string()), ANY)) if form is not None and z3.is_string_value(part) else None


def finite(ip, t, x):
    """float(t) is x"""
    ip.assume(z3.And(func('float_of_str_outcome', ['str'], 'int')(t) == 0, func('float_of_str', ['str'], 'real')(t) == x))


def float_facts(ip, x, forms=('integral', 'fraction', 'exponent', 'exponent and fraction')):
    """Host facts: str(x) of a finite float is its shortest decimal text, and float() of it is x"""
    whole, fraction, power = (func(f'text_{part}', ['real'], 'str')(x.t) for part in ('whole', 'fraction', 'power'))
    integral = x.t == z3.ToReal(z3.ToInt(x.t))
    small = z3.And(x.t < 10 ** 16, x.t > -10 ** 16)
    form = ip.pick(list(forms))
    sign = '-' if ip.branch(x.t < 0) else ''
    digits = alt(lit('0'), cat(NONZERO, star(DIGIT)))
    exponent = cat(lit('e'), lang.chars('+-'), DIGIT, plus(DIGIT))
    if form == 'integral':
        # The digits of the integer
        whole = func('text_of_int', ['int'], 'str')(z3.ToInt(x.t))
        ip.assume(z3.And(integral, small))
        t = known(ip, (whole, cat(lit(sign), digits)), '.0')
    elif form == 'fraction':
        ip.assume(z3.And(z3.Not(integral), small))
        t = known(ip, (whole, cat(lit(sign), digits)), '.', (fraction, FRACTION))
    else:
        # Large numbers are integral, small ones are not
        ip.assume(z3.Or(z3.Not(integral), z3.Not(small)))
        head = (whole, cat(lit(sign), NONZERO))
        t = known(ip, head, '.', (fraction, FRACTION), (power, exponent)) if form == 'exponent and fraction' else known(ip, head, (power, exponent))
    finite(ip, t, x.t)
    ip.assume(func('text_of_float', ['real'], 'str')(x.t) == t)
    ip.float_text = (x, t)
    return t


def int_facts(ip, n):
    """Host facts: str(n) is the decimal text of n, and int() of it is n; float() of it is n where a float can be (|n| <= 2^53)"""
    sign = '-' if ip.branch(n.t < 0) else ''
    t = known(ip, (func('text_of_int', ['int'], 'str')(n.t), cat(lit(sign), alt(lit('0'), cat(NONZERO, star(DIGIT))))))
    ip.assume(z3.And(func('raises:int_of_str_base', ['str', 'int'], 'int')(t, 10) == 0, func('int_of_str_base', ['str', 'int'], 'int')(t, 10) == n.t))
    ip.assume(z3.And(func('raises:int_of_str', ['str'], 'int')(t) == 0, func('int_of_str', ['str'], 'int')(t) == n.t))
    finite(ip, t, z3.ToReal(n.t))
    return t


def holds(ip, cond):
    """Is the condition known? (without a case distinction)"""
    return ip.check(z3.Not(cond)) == z3.unsat


def semantics(ip, pattern, name, args, kwargs):
    """Patterns by their language: match and fullmatch; a substitution at the end of the text"""
    if kwargs or name not in ('match', 'fullmatch', 'search', 'sub'):
        return NotImplemented
    t = str_term(ip.unwrap(args[1 if name == 'sub' else 0]))
    if t is None:
        return NotImplemented
    if ip.float_text is not None and t.eq(func('text_of_float', ['real'], 'str')(ip.float_text[0].t)):
        t = ip.float_text[1]
    form = form_of(ip, t)
    if form is None:
        return NotImplemented
    flags = pattern.flags | lang.ASCII if lang.decide(form.language, star(span(0, 127))) is True else pattern.flags
    start, items, follow = lang.split_anchors(lang.parse(pattern), flags)
    body = lang.language(items, flags)
    if name != 'sub':
        if len(args) > 1:
            return NotImplemented
        accepted = body if name == 'fullmatch' else cat(body, follow) if name == 'match' or start else cat(ANY, body, follow)
        result = lang.decide(form.language, accepted)
        if name == 'search' and result and not start:
            return Found(ip, pattern, t, form, items, flags, body, follow)
        if result is None:
            raise Unsupported('a pattern on a text of which too little is known')
        return Known(pattern, name, t, form, items, flags, body, follow) if result else None
    repl = ip.unwrap(args[0])
    if len(args) != 2 or lang.decide(form.language, cat(ANY, body, follow)) is False:
        return SV('str', t) if len(args) == 2 else NotImplemented
    if not isinstance(repl, str) or '\\' in repl or start or follow is ANY:
        return NotImplemented
    if lang.decide(form.language, cat(ANY, lit('\n'), ANY)) is not False or lang.empty(z3.Intersect(body, lang.EMPTY)) is not True:
        raise Unsupported('substitution in a text of several lines, or of nothing')
    # The first place where a match starts
    for ix, (term, language) in enumerate(form.segments):
        rest = [seg for _, seg in form.segments[ix + 1:]]
        if not z3.is_string_value(term):
            if lang.empty(z3.Intersect(cat(ends(language), *rest), body)) is not True:
                raise Unsupported('a substitution in a text of which too little is known')
            continue
        text = term.as_string()
        for jx in range(len(text)):
            result = lang.decide(cat(lit(text[jx:]), *rest), body)
            if result is None:
                raise Unsupported('a substitution in a text of which too little is known')
            if result:
                kept = [*form.segments[:ix], *([text[:jx]] if jx else []), *([repl] if repl else [])]
                new = known(ip, *[z3_text(seg) for seg in kept])
                number_of(ip, new, t)
                return SV('str', new)
    return SV('str', t)


def z3_text(seg):
    return seg if isinstance(seg, str) or not z3.is_string_value(seg[0]) else seg[0].as_string()


def ends(language):
    """The words with which a word of the language can end (all words of its characters: enough to exclude a match), without the empty word"""
    return plus(lang.alphabet(language))


def number_of(ip, kept, t):
    """Host fact: a fraction of zeros does not change the number"""
    a, b = form_of(ip, kept), form_of(ip, t)
    if lang.decide(a.language, INT) is True and lang.decide(b.language, cat(INT, ZEROS)) is True and b.segments[0][0].eq(a.segments[0][0]) and len(a.segments) == 1:
        ip.assume(func('float_of_str_outcome', ['str'], 'int')(kept) == func('float_of_str_outcome', ['str'], 'int')(t))
        ip.assume(func('float_of_str', ['str'], 'real')(kept) == func('float_of_str', ['str'], 'real')(t))


class Known(Match):
    """The match of a text of which enough is known: a greedy pattern whose choices are decided by the next character takes the whole of a text that it can"""

    def __init__(self, pattern, how, text, form, items, flags, body, follow):  # pylint: disable=too-many-arguments
        super().__init__(pattern, how, text)
        self.form, self.items, self.flags, self.body, self.follow = form, items, flags, body, follow

    def group(self, ip, name):
        ix = self.pattern.groupindex.get(name) if isinstance(name, str) else name
        if self.how == 'search' or self.follow is not ANY or lang.decide(self.form.language, self.body) is not True:
            raise Unsupported('group of a match')
        lang.deterministic(ip, self.items, self.flags, f'pattern {self.pattern.pattern}')
        rest = list(self.items)
        # Leading repetitions that take nothing of the text
        while rest and str(rest[0][0]) == 'MAX_REPEAT' and lang.decide(self.form.language, cat(lang.first_chars(rest[:1], self.flags)[0], ANY)) is False:
            rest = rest[1:]
        if ix == 0 or len(rest) == 1 and str(rest[0][0]) == 'SUBPATTERN' and rest[0][1][0] == ix:
            return SV('str', self.text)
        raise Unsupported('group of a match')


class Found(Match):
    """The first match in a text of segments of fixed lengths"""

    def __init__(self, ip, pattern, text, form, items, flags, body, follow):  # pylint: disable=too-many-arguments
        super().__init__(pattern, 'search', text)
        size = length_of(body)
        if size is None or follow is not ANY:
            raise Unsupported('search of a pattern')
        at = 0
        for ix, (term, language) in enumerate(form.segments):
            rest = [seg for _, seg in form.segments[ix + 1:]]
            if not z3.is_string_value(term):
                if lang.empty(z3.Intersect(cat(ends(language), *rest), cat(body, ANY))) is not True or length_of(language) is None:
                    raise Unsupported('search in a text of which too little is known')
                at += length_of(language)
                continue
            for jx in range(len(term.as_string())):
                result = lang.decide(cat(lit(term.as_string()[jx:]), *rest), cat(body, ANY))
                if result is None:
                    raise Unsupported('search in a text of which too little is known')
                if result:
                    self.at, self.size = at + jx, size
                    self.spans = group_spans(items, flags, self.at)
                    self.spans[0] = (self.at, self.at + size)
                    return
            at += len(term.as_string())
        raise Unsupported('search of a pattern')

    def span_of(self, ip, ix):
        ix = self.pattern.groupindex.get(ix) if isinstance(ix, str) else ix
        if ix not in self.spans:
            raise Unsupported('group of a search')
        return self.spans[ix]

    def group(self, ip, name):
        t = text_slice(ip, self.text, *self.span_of(ip, name))
        if t is None:
            raise Unsupported('group of a search')
        return SV('str', t)

    def getattr(self, ip, name):
        if name in ('start', 'end', 'span'):
            def place(ip2, args, kwargs):
                first, last = self.span_of(ip2, args[0] if args else 0)
                return first if name == 'start' else last if name == 'end' else (first, last)
            return Model(place)
        return super().getattr(ip, name)


def group_spans(items, flags, at):
    """The places of the groups of a pattern of fixed length"""
    found = {}
    for op, arg in items:
        if str(op) == 'SUBPATTERN':
            size = length_of(lang.language(arg[3], flags))
            if arg[0] is not None:
                found[arg[0]] = (at, at + size)
            found.update(group_spans(arg[3], flags, at))
        at += length_of(lang.language([(op, arg)], flags))
    return found


def setup(ip):
    ip.pattern_contract = semantics
    ip.text_forms = {}
    ip.float_text = None
    ip.contracts['slice'] = lambda ip2, t, lo, hi: text_slice(ip2, t, lo, hi)
    ip.text_contains = lambda t, part: text_contains(ip, t, part)
    ip.contracts[parser_mod.BareScriptParserError] = parsex.parser_error


def number(ip, negative=True):
    """A number, with the facts about its text"""
    kind = ip.pick(['int', 'float'])
    x = ip.input('int' if kind == 'int' else 'real', 'x')
    if not negative:
        ip.assume(x.t >= 0)
    if kind == 'int':
        ip.assume(z3.And(x.t <= 2 ** 53, x.t >= -2 ** 53))
        int_facts(ip, x)
    else:
        float_facts(ip, x)
    return kind, x


def real(x):
    return z3.ToReal(x.t) if x.k == 'int' else x.t


@obligation('number.text', ['C13'], ['value.value_string', 'value.value_parse_number', 'value.R_NUMBER_CLEANUP'], prove_ms=30000)
def _(ip):
    """The text of a number parses back to exactly the number; integral numbers print as their digits, and no text ends with a fraction of zeros"""
    setup(ip)
    kind, x = number(ip)
    text = inline(ip, value_mod.value_string, x).unwrap()
    form = form_of(ip, str_term(ip.unwrap(text)))
    if form is None:
        raise Unsupported('form of the text of a number')
    lang.included(ip, form.language, INT if kind == 'int' else alt(INT, FLOAT), 'the form of the text')
    lang.is_empty(ip, z3.Intersect(form.language, cat(ANY, ZEROS)), 'no text ends with a fraction of zeros')
    if kind == 'int' or ip.branch(z3.And(x.t == z3.ToReal(z3.ToInt(x.t)), x.t < 10 ** 16, x.t > -10 ** 16)):
        digits = func('text_of_int', ['int'], 'str')(x.t if kind == 'int' else z3.ToInt(x.t))
        ip.prove(form.term.eq(digits) or form.term == digits, 'an integral number prints as its digits')
    parsed = inline(ip, value_mod.value_parse_number, text)
    ip.prove(parsed.ok, 'the text parses')
    prove_same(ip, parsed.value, x, 'the number', True)


@obligation('number.literal', ['C13', 'C02'], ['value.value_string', 'parser.parse_expression', 'parser._parse_binary_expression', 'parser._parse_unary_expression'],
            prove_ms=30000)
def _(ip):
    """The text of a number that is not negative is a literal of exactly the number"""
    setup(ip)
    _, x = number(ip, False)
    text = inline(ip, value_mod.value_string, x).unwrap()
    parsed = outcome(ip, parser_mod.parse_expression, text)
    ip.prove(parsed.ok, 'the text is an expression')
    tree = ip.unwrap(parsed.value)
    items = tree.concrete() if isinstance(tree, SDict) else tree if isinstance(tree, dict) else None
    ip.prove(items is not None and list(items) == ['number'], 'a number literal')
    prove_same(ip, items['number'], x, 'the number', True)


@obligation('number.parse', ['C13', 'C19'], ['value.value_parse_number'])
def _(ip):
    """A text is the number that it is, or null: never a value that is not finite, never an exception"""
    text = ip.input('str', 'text')
    got = inline(ip, value_mod.value_parse_number, text)
    ip.prove(got.ok, 'no exception')
    ip.prove(not isinstance(ip.unwrap(got.value), NonFinite), 'a finite number')
    want = inline(ip, value_spec.spec_parse_number, text).unwrap()
    prove_same(ip, got.value, want, 'the number')


@obligation('integer.parse', ['C13'], ['value.value_parse_integer'])
def _(ip):
    """A text is the integer that it is in the radix, or null"""
    text, radix = ip.input('str', 'text'), ip.input('int', 'radix')
    ip.assume(z3.And(radix.t >= 2, radix.t <= 36))
    got = inline(ip, value_mod.value_parse_integer, text, *([radix] if ip.pick(['radix', 'no radix']) == 'radix' else []))
    want = inline(ip, value_spec.spec_parse_integer, text, radix if 'radix' in ip.labels[-1] and 'no radix' not in ip.labels[-1] else 10).unwrap()
    ip.prove(got.ok, 'no exception')
    prove_same(ip, got.value, want, 'the integer')


@obligation('integer.text', ['C13'], ['value.value_string', 'value.value_parse_integer'])
def _(ip):
    """The text of an integral number parses back to it as an integer"""
    setup(ip)
    kind = ip.pick(['int', 'float'])
    n = ip.input('int', 'n')
    if kind == 'float':
        ip.assume(z3.And(n.t < 10 ** 15, n.t > -10 ** 15))
    int_facts(ip, n)
    x = n if kind == 'int' else SV('real', z3.ToReal(n.t))
    if kind == 'float':
        float_facts(ip, x, ['integral'])
    text = inline(ip, value_mod.value_string, x).unwrap()
    parsed = inline(ip, value_mod.value_parse_integer, text)
    ip.prove(parsed.ok, 'the text parses')
    prove_same(ip, parsed.value, n, 'the integer', True)


JSON_TEXT = func('json_text', ['val', 'int'], 'str')
JSON_FAILS = func('json_fails', ['val', 'int'], 'bool')


def json_contract(ip, args, kwargs):
    """value_json: a text that depends on the value (and its content) and the indent, or an exception (json.text)"""
    value, indent = ip.to_v(args[0]), args[1] if len(args) > 1 else kwargs.get('indent')
    indent = z3.IntVal(0) if indent is None else ival(ip.int_of(indent))
    if ip.branch(JSON_FAILS(value, indent)):
        ip.raise_(ValueError, 'not serialisable')
    return SV('str', JSON_TEXT(value, indent))


@obligation('value_string.spec', ['C03', 'C13'], ['value.value_string'])
def _(ip):
    """The text of a value that is no float (number.text) and no datetime (datetime.text)"""
    v = ip.input('val', 'v', SCRIPT_KINDS - {'flt', 'date', 'dtn', 'dta'})
    ip.contracts[value_mod.value_json] = json_contract
    got, want = inline(ip, value_mod.value_string, v), inline(ip, value_spec.spec_string, v)
    ip.prove(got.ok == want.ok, 'the text, or an exception')
    if got.ok and want.ok:
        prove_same(ip, got.value, want.value, 'the text')
    elif not got.ok and not want.ok:
        ip.prove(got.exc.cls is want.exc.cls, 'the exception')


#
# JSON
#

class Encoder(EObj):
    """A JSON encoder that the code creates"""

    py_class = json.JSONEncoder
    NAMES = ('skipkeys', 'ensure_ascii', 'check_circular', 'allow_nan', 'sort_keys', 'indent', 'separators', 'default')

    def __init__(self, cls, settings):
        self.cls, self.settings = cls, settings

    def getattr(self, ip, name):
        if name == 'encode':
            return Model(lambda ip2, args, kwargs: encode(ip2, self.cls, self.settings, *args))
        raise Unsupported(f'JSONEncoder.{name}')


def host_encode(ip, obj, args, kwargs):
    settings = {'skipkeys': obj.skipkeys, 'ensure_ascii': obj.ensure_ascii, 'check_circular': obj.check_circular, 'allow_nan': obj.allow_nan, 'sort_keys': obj.sort_keys,
                'indent': obj.indent, 'separators': (obj.item_separator, obj.key_separator), 'default': obj.__dict__.get('default')}
    return encode(ip, type(obj), settings, *args, **kwargs)


def dumps(ip, args, kwargs):
    """json.dumps: the encoder of its class and settings"""
    settings = dict(kwargs)
    cls = settings.pop('cls', json.JSONEncoder)
    if len(args) != 1 or set(settings) - set(Encoder.NAMES):
        raise Unsupported('arguments of json.dumps')
    return encode(ip, cls, settings, args[0])


def encode(ip, cls, settings, value):
    """JSONEncoder.encode (host): a JSON text of the value, or an exception - for settings that write all of it, in a standard form"""
    if settings.get('default') is not None or set(settings) - set(Encoder.NAMES):
        raise Unsupported('settings of the JSON encoder')
    indent = ip.unwrap(settings.get('indent'))
    separators = settings.get('separators') or ((', ', ': ') if indent is None else (',', ': '))
    ip.prove(settings.get('allow_nan', True) is False, 'no text that is not JSON')
    ip.prove(settings.get('sort_keys', False) is True, 'the keys are sorted')
    ip.prove(settings.get('skipkeys', False) is False, 'no key is left out')
    ip.prove(settings.get('check_circular', True) is True, 'circular values fail')
    ip.prove(isinstance(separators, tuple) and len(separators) == 2 and all(isinstance(sep, str) for sep in separators) and
             separators[0].strip(' \t\r\n') == ',' and separators[1].strip(' \t\r\n') == ':', 'the separators of JSON')
    number = z3.IntVal(0) if indent is None else ival(ip.int_of(indent))
    value = ip.to_v(value)
    if ip.branch(JSON_FAILS(value, number)):
        ip.raise_(ValueError, 'not serialisable')
    ip.encoders.append(cls)
    return SV('str', func('json_encode', ['val', 'int'], 'str')(value, number))


LETTER = span(97, 122)
PLAIN = plus(alt(DIGIT, LETTER, lang.chars('{}[],: \n+-EINfa'), lit('\t'), lit('\r')))
HEX = alt(DIGIT, span(97, 102), span(65, 70))
STRING_CHAR = alt(cat(lit('\\'), lang.chars('"\\/bfnrt')), cat(lit('\\u'), HEX, HEX, HEX, HEX), lang.without(CHAR, alt(span(0, 31), lang.chars('"\\'))))
STRING = cat(lit('"'), star(STRING_CHAR), lit('"'))
# What can follow a number
FOLLOW = alt(lang.EMPTY, cat(lang.chars(',}]\n'), ANY))
POWER = opt(cat(lit('e'), lang.chars('+-'), plus(DIGIT)))


def alternatives(pattern, repl):
    """The alternatives of the pattern: (consumed, what may follow, kept?)"""
    items = list(lang.parse(pattern))
    branches = [list(branch) for branch in items[0][1][1]] if len(items) == 1 and str(items[0][0]) == 'BRANCH' else [items]
    found = []
    for branch in branches:
        start, consumed, follow = lang.split_anchors(branch, pattern.flags)
        if start:
            raise Unsupported('anchor in the number pattern')
        group = consumed[0][1][0] if len(consumed) == 1 and str(consumed[0][0]) == 'SUBPATTERN' else None
        kept = repl in (f'\\{group}', f'\\g<{group}>') if group is not None else False
        if not kept and repl not in ('', *(f'\\{ix}' for ix in range(1, pattern.groups + 1)), *(f'\\g<{ix}>' for ix in range(1, pattern.groups + 1))):
            raise Unsupported('replacement of the number pattern')
        found.append((lang.language(consumed, pattern.flags), follow, kept))
    return found


def clean(ip, pattern, name, args, kwargs):
    """The substitution in a JSON text, token by token (a scan starts at the start of a token, and by the claims it ends at the end of one):
    strings and everything else but fractions of zeros stay as they are"""
    t = str_term(ip.unwrap(args[1])) if name == 'sub' and len(args) == 2 and not kwargs else None
    if t is None or t.decl().name() != func('json_encode', ['val', 'int'], 'str').name():
        return NotImplemented
    repl = ip.unwrap(args[0])
    if not isinstance(repl, str):
        raise Unsupported('replacement of the number pattern')
    found = alternatives(pattern, repl)
    starts = alt(*[consumed for consumed, _, _ in found])
    what = f'pattern {pattern.pattern}'
    lang.is_empty(ip, z3.Intersect(starts, lang.EMPTY), f'{what} takes something')
    lang.is_empty(ip, z3.Intersect(starts, cat(alphabet(PLAIN), ANY)), f'{what}: nothing but strings and fractions is touched')
    # Strings
    seen = False
    for consumed, follow, kept in found:
        quoted = z3.Intersect(consumed, cat(lit('"'), ANY))
        if lang.empty(quoted):
            continue
        ip.prove(not seen and kept and follow is ANY, f'{what}: one alternative takes strings, and keeps them')
        seen = True
        lang.included(ip, STRING, consumed, f'{what}: every string is taken')
        lang.is_empty(ip, z3.Intersect(quoted, cat(quoted, plus(CHAR))), f'{what}: a string ends where it ends')
    ip.prove(seen, f'{what}: strings are skipped as a whole')
    # Fractions
    seen = False
    for consumed, follow, kept in found:
        point = z3.Intersect(consumed, cat(lit('.'), ANY))
        if lang.empty(point):
            continue
        if seen:
            raise Unsupported('alternatives for fractions')
        seen = True
        ip.prove(not kept, f'{what}: the fraction is removed')
        lang.is_empty(ip, z3.Intersect(cat(lit('.'), FRACTION, POWER, FOLLOW), cat(point, follow)), f'{what}: a fraction that is not zero stays')
        lang.is_empty(ip, z3.Intersect(cat(lit('.0'), lit('e'), lang.chars('+-'), plus(DIGIT), FOLLOW), cat(point, follow)), f'{what}: a number with an exponent stays')
        lang.included(ip, lit('.0'), point, f'{what}: a fraction of zeros is taken')
        lang.included(ip, FOLLOW, follow, f'{what}: before whatever follows a number')
        lang.is_empty(ip, z3.Intersect(cat(lit('0'), FOLLOW), z3.Intersect(follow, rest_of(ip, point))), f'{what}: as a whole')
        lang.is_empty(ip, z3.Intersect(point, cat(lit('.0'), lang.chars(',}]\n'), ANY)), f'{what}: and nothing more')
    ip.prove(seen, f'{what}: fractions of zeros are removed')
    return SV('str', func('json_clean', ['str'], 'str')(t))


def rest_of(ip, point):
    """Any text, if the point alone can be taken"""
    return NONE if lang.empty(z3.Intersect(point, lit('.'))) else ANY


@obligation('json.text', ['C14', 'C13'], ['value.value_json'])
def _(ip):
    """The text is the host's standard JSON text of the whole value, keys sorted, with exactly the fractions of zeros removed"""
    ip.encoders = []
    value, indent = ip.input('val', 'value', SCRIPT_KINDS), ip.input('int', 'indent')
    encoders = [cls for cls in vars(value_mod).values() if isinstance(cls, type) and issubclass(cls, json.JSONEncoder)]
    for cls in encoders:
        ip.contracts[cls] = lambda ip2, args, kwargs, cls=cls: Encoder(cls, dict(kwargs)) if not args else NotImplemented
    ip.contracts[(json.JSONEncoder, 'encode')] = host_encode
    ip.contracts[json.dumps] = dumps
    ip.pattern_contract = clean
    with_indent = ip.pick(['indent', 'no indent']) == 'indent'
    got = inline(ip, value_mod.value_json, value, *([indent] if with_indent else []))
    number = indent.t if with_indent else z3.IntVal(0)
    number = z3.If(number > 0, number, 0)
    ip.prove(got.ok == (not ip.branch(JSON_FAILS(value.t, number))), 'a value that JSON cannot hold is an error')
    if got.ok:
        want = func('json_clean', ['str'], 'str')(func('json_encode', ['val', 'int'], 'str')(value.t, number))
        ip.prove(len(ip.encoders) == 1, 'one text')
        ip.prove(str_term(ip.unwrap(got.value)) == want, 'the text of the value')


@obligation('json.default', ['C14'], ['value._JSONEncoder.default'])
def _(ip):
    """A value that is no JSON value is written as its text, or as null"""
    encoders = [cls for cls in vars(value_mod).values() if isinstance(cls, type) and issubclass(cls, json.JSONEncoder) and 'default' in vars(cls)]
    if len(encoders) != 1:
        raise Unsupported('the JSON encoder')
    ip.contracts[value_mod.value_string] = lambda ip2, args, kwargs: SV('str', func('string_of_value', ['val'], 'str')(ip2.to_v(args[0])))
    value = ip.input('val', 'value', frozenset(['date', 'dtn', 'dta', 'fn', 'rex']))
    got = inline(ip, vars(encoders[0])['default'], Encoder(encoders[0], {}), value).unwrap()
    if ip.has_kind(value, frozenset(['rex'])):
        ip.prove(got is None, 'a pattern is null')
    else:
        prove_same(ip, got, SV('str', func('string_of_value', ['val'], 'str')(value.t)), 'the text of the value')


#
# Datetimes
#

TWO, THREE, FOUR, SIX = (cat(*[DIGIT] * n) for n in (2, 3, 4, 6))
DATE = cat(FOUR, lit('-'), TWO, lit('-'), TWO)
TIME = cat(TWO, lit(':'), TWO, lit(':'), TWO)
OFFSET = cat(lang.chars('+-'), TWO, lit(':'), span(48, 53), DIGIT)
INSTANT = func('instant_of_local', ['int'], 'int')    # the aware datetime of a local datetime that exists in the time zone


class Clock:
    """The host's time zone: whole-minute offsets; a local datetime that exists is that of its instant"""

    def __init__(self, ip, n):
        self.n = n
        second = n - n % 1000000
        self.date, self.time, self.offset, self.micro = (ip.fresh('str', f'iso_{part}').t for part in ('date', 'time', 'offset', 'micro'))
        self.second = second
        ip.contracts['value_method'] = self.method
        ip.contracts[datetime.datetime.fromisoformat] = self.from_iso
        ip.contracts['format'] = self.format

    def head(self):
        return [(self.date, DATE), 'T', (self.time, TIME)]

    def method(self, ip, obj, kind, name, args, kwargs):
        if args:
            return NotImplemented
        if name == 'astimezone' and not kwargs and kind == 'dtn':
            return SV('val', V.dta(INSTANT(V.n(obj.t))))
        if kind == 'dta' and z3.simplify(V.a(obj.t)).decl().name() == INSTANT.name():
            local = z3.simplify(V.a(obj.t)).arg(0)
            if name == 'astimezone' and not kwargs:
                return obj
            if name == 'replace' and set(kwargs) == {'tzinfo'} and kwargs['tzinfo'] is None:
                ip.assume(z3.And(local >= 0, local <= MICROS_MAX))
                return SV('val', V.dtn(local))
            if name == 'isoformat' and not kwargs and local.eq(z3.simplify(self.n)):
                micro = self.n % 1000000
                if not ip.branch(micro != 0):
                    return SV('str', known(ip, *self.head(), (self.offset, OFFSET)))
                digits = self.micro
                ip.assume(z3.And(func('raises:int_of_str', ['str'], 'int')(digits) == 0, func('int_of_str', ['str'], 'int')(digits) == micro))
                return SV('str', known(ip, *self.head(), '.', (digits, SIX), (self.offset, OFFSET)))
        return NotImplemented

    def format(self, ip, value, spec):
        """The digits of a number, padded with zeros"""
        width = re.fullmatch(r'0(\d)d?', spec) if isinstance(spec, str) else None
        t = ip.int_of(value)
        if width is None or isinstance(t, int):
            return NotImplemented
        width = int(width[1])
        if not holds(ip, z3.And(t >= 0, t < 10 ** width)):
            return NotImplemented
        digits = ip.fresh('str', 'digits').t
        ip.assume(z3.And(func('raises:int_of_str', ['str'], 'int')(digits) == 0, func('int_of_str', ['str'], 'int')(digits) == t))
        return SV('str', known(ip, (digits, cat(*[DIGIT] * width))))

    def from_iso(self, ip, args, kwargs):
        """datetime.fromisoformat of a text of the parts of a datetime"""
        form = form_of(ip, str_term(ip.unwrap(args[0])))
        if form is None or kwargs or len(args) != 1:
            raise Unsupported('text of fromisoformat')
        parts = [(self.date, DATE), (z3.StringVal('T'), None), (self.time, TIME)]
        terms = [term for term, _ in form.segments]
        if len(terms) < 4 or not all(term.eq(part) for term, (part, _) in zip(terms, parts)) or not terms[-1].eq(self.offset):
            raise Unsupported('text of fromisoformat')
        middle = form.segments[3:-1]
        micro = z3.IntVal(0)
        if middle:
            if len(middle) != 2 or not middle[0][0].eq(z3.StringVal('.')) or length_of(middle[1][1]) is None:
                raise Unsupported('text of fromisoformat')
            digits, language = middle[1]
            micro = func('int_of_str', ['str'], 'int')(digits) * 10 ** (6 - length_of(language))
        return SV('val', V.dta(INSTANT(z3.simplify(self.second + micro))))


def length_of(language):
    """The length of the words of the language, if it is fixed"""
    for n in range(12):
        if lang.empty(lang.without(language, z3.Loop(CHAR, n, n) if n else lang.EMPTY)):
            return n
    return None


def text_slice(ip, t, lo, hi):
    """Whole segments of a text whose segments have fixed lengths"""
    form = form_of(ip, t)
    if form is None or not isinstance(lo, int):
        return None
    at, found = 0, []
    for term, language in form.segments:
        size = len(term.as_string()) if z3.is_string_value(term) else length_of(language)
        if size is None:
            return None
        if lo <= at and (hi is None or at + size <= hi):
            found.append((term, language))
        elif at < lo < at + size or hi is not None and at < hi < at + size:
            return None
        at += size
    return known(ip, *[z3_text(seg) for seg in found]) if found else z3.StringVal('')


@obligation('datetime.text', ['C16'], ['value.value_string', 'value.value_parse_datetime', 'value.value_normalize_datetime', 'value._R_DATETIME_MICROSECOND',
                                       'value._R_DATETIME_TZ_CLEANUP', 'value._R_DATE', 'value._R_DATETIME', 'value._R_DATETIME_ZULU'])
def _(ip):
    """The text of a datetime that exists in the time zone (with a whole-minute offset) parses to the datetime, to the millisecond"""
    setup(ip)
    value = ip.input('val', 'value', frozenset(['dtn']))
    Clock(ip, V.n(value.t))
    ip.assume(z3.And(V.n(value.t) >= 0, V.n(value.t) <= MICROS_MAX))
    text = inline(ip, value_mod.value_string, value).unwrap()
    parsed = inline(ip, value_mod.value_parse_datetime, text)
    ip.prove(parsed.ok, 'the text parses')
    got = ip.unwrap(parsed.value)
    ip.prove(got is not None, 'the text is a datetime')
    ip.prove(ip.to_v(got) == V.dtn(V.n(value.t) - V.n(value.t) % 1000), 'the datetime')


@obligation('datetime.parse', ['C16'], ['value.value_parse_datetime'])
def _(ip):
    """Any text is a naive datetime of whole milliseconds, or null: never an exception"""
    text = ip.input('str', 'text')
    ip.contracts[datetime.datetime.fromisoformat] = lambda ip2, args, kwargs: SV('val', V.dta(
        uf_partial(ip2, 'fromisoformat', ['str'], 'int', [str_term(ip2.unwrap(args[0]))], [ValueError])))
    got = inline(ip, value_mod.value_parse_datetime, text)
    ip.prove(got.ok, 'no exception')
    value = ip.unwrap(got.value)
    if value is not None:
        t = ip.to_v(value)
        ip.prove(V.is_dtn(t), 'a naive datetime')
        ip.prove(V.n(t) % 1000 == 0, 'of whole milliseconds')
