"""C14: jsonParse(jsonStringify(v)) equals v"""

import json
import math
import random
import re
import struct

from hv.core import dec, enc, snapshot

TITLE = 'faithfulness of JSON serialisation'
RULE = ('random JSON-able values to depth 5 and 12 members with strings and keys over ASCII, escapes, control characters, astral and lone-surrogate code points, '
        'number-like and JSON-like fragments (".0,", "1.0}"), numbers over the double range, compact and with indents 1..10; oracle: a strict independent JSON reader; '
        'non-trivial: a non-empty container or string, or a number')


class BadJson(Exception):
    pass


class Reader:
    """A strict RFC 8259 reader: keeps key order and number texts"""

    def __init__(self, text):
        self.text = text
        self.pos = 0
        self.numbers = []
        self.orders = []

    def read(self):
        val = self.value()
        self.space()
        if self.pos != len(self.text):
            raise BadJson(f'text after the value at {self.pos}')
        return val

    def space(self):
        while self.pos < len(self.text) and self.text[self.pos] in ' \t\n\r':
            self.pos += 1

    def peek(self):
        self.space()
        if self.pos >= len(self.text):
            raise BadJson('unexpected end')
        return self.text[self.pos]

    def expect(self, ch):
        if self.peek() != ch:
            raise BadJson(f'expected {ch} at {self.pos}')
        self.pos += 1

    def value(self):
        ch = self.peek()
        if ch == '{':
            self.pos += 1
            res, keys = {}, []
            if self.peek() == '}':
                self.pos += 1
                return res
            while True:
                self.space()
                key = self.string()
                self.expect(':')
                if key in res:
                    raise BadJson(f'key {key!r} twice')
                keys.append(key)
                res[key] = self.value()
                if self.peek() == ',':
                    self.pos += 1
                    continue
                self.expect('}')
                self.orders.append(keys)
                return res
        if ch == '[':
            self.pos += 1
            res = []
            if self.peek() == ']':
                self.pos += 1
                return res
            while True:
                res.append(self.value())
                if self.peek() == ',':
                    self.pos += 1
                    continue
                self.expect(']')
                return res
        if ch == '"':
            return self.string()
        for word, val in (('true', True), ('false', False), ('null', None)):
            if self.text.startswith(word, self.pos):
                self.pos += len(word)
                return val
        match = re.compile(r'-?(?:0|[1-9][0-9]*)(?:\.[0-9]+)?(?:[eE][+-]?[0-9]+)?').match(self.text, self.pos)
        if match is None:
            raise BadJson(f'no value at {self.pos}')
        self.pos = match.end()
        self.numbers.append(match.group())
        return float(match.group()) if re.search('[.eE]', match.group()) else int(match.group())

    def string(self):
        if self.pos >= len(self.text) or self.text[self.pos] != '"':
            raise BadJson(f'no string at {self.pos}')
        self.pos += 1
        res = []
        while True:
            if self.pos >= len(self.text):
                raise BadJson('unterminated string')
            ch = self.text[self.pos]
            self.pos += 1
            if ch == '"':
                break
            if ch == '\\':
                esc = self.text[self.pos:self.pos + 1]
                self.pos += 1
                if esc == 'u':
                    code = self.text[self.pos:self.pos + 4]
                    if not re.fullmatch('[0-9a-fA-F]{4}', code):
                        raise BadJson('bad escape')
                    self.pos += 4
                    res.append(chr(int(code, 16)))
                elif esc and esc in '"\\/bfnrt':
                    res.append({'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}.get(esc, esc))
                else:
                    raise BadJson('bad escape')
            elif ord(ch) < 32:
                raise BadJson('raw control character')
            else:
                res.append(ch)
        # Surrogate pairs
        return re.sub('[\ud800-\udbff][\udc00-\udfff]', lambda m: chr(0x10000 + ((ord(m.group()[0]) - 0xd800) << 10) + ord(m.group()[1]) - 0xdc00), ''.join(res))


def equal(a, b):
    """Equal JSON values: exact types, exact characters"""
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    return a == b


def strip_layout(text):
    """The text without blanks outside strings"""
    return re.sub(r'("(?:\\.|[^"\\])*")|\s+', lambda m: m.group(1) or '', text)


def check_value(case):
    from bare_script.library import SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
    from bare_script.value import value_json, value_string  # pylint: disable=import-outside-toplevel
    value = dec(case['v'])
    before = snapshot(value)
    compact = None
    for indent in [None] + case.get('indents', [1, 4]):
        args = [value] if indent is None else [value, indent]
        text = SCRIPT_FUNCTIONS['jsonStringify'](args, None)
        if not isinstance(text, str):
            return f'not text: jsonStringify({value!r}, {indent}) = {text!r}'
        reader = Reader(text)
        try:
            got = reader.read()
        except BadJson as exc:
            return f'invalid JSON: jsonStringify({value!r}, {indent}) = {text!r}: {exc}'
        if not equal(got, value):
            return f'value differs: jsonStringify({value!r}, {indent}) = {text!r} reads as {got!r}'
        for how, parse in (('jsonParse', lambda t: SCRIPT_FUNCTIONS['jsonParse']([t], None)), ('json.loads', json.loads)):
            got = parse(text)
            if not equal(got, value):
                return f'round trip differs: {how}({text!r}) = {got!r}, the value was {value!r}'
        for keys in reader.orders:
            if keys != sorted(keys):
                return f'keys are not sorted: {keys!r} in {text!r}'
        for num in reader.numbers:
            if float(num) == math.floor(float(num)) and re.search(r'\.(?!.*[eE])|\.0*[eE]', num):
                return f'integral number has a fraction: {num} in {text!r}'
        if indent is None:
            compact = text
            if strip_layout(text) != text:
                return f'blanks in compact text: {text!r}'
            if value_json(value) != text or (isinstance(value, (list, dict)) and value_string(value) != text):
                return f'texts differ: {text!r} and {value_json(value)!r}'
        elif strip_layout(text) != compact:
            return f'indented text differs: {text!r} and {compact!r}'
    if snapshot(value) != before:
        return f'jsonStringify modified its argument {value!r}'
    return None


def check_script(case):
    from bare_script import execute_script, parse_script  # pylint: disable=import-outside-toplevel
    value = dec(case['v'])
    glob = {'v': value}
    got = execute_script(parse_script('return arrayNew(jsonParse(jsonStringify(v)), jsonParse(jsonStringify(v, 2)), jsonParse("" + arrayNew(v)))'), {'globals': glob})
    if not equal(got, [value, value, [value]]):
        return f'round trip differs in a script: {value!r} became {got!r}'
    return None


CHECKS = {'value': check_value, 'script': check_script}


def nontrivial(_kind, case):
    return case['v'] not in (None, True, False, '', [], {'$o': []})


def shrink(_kind, case):
    value = dec(case['v'])
    for smaller in shrink_value(value):
        yield {**case, 'v': enc(smaller)}


def shrink_value(value):
    if isinstance(value, list):
        yield from value
        for ix in range(len(value)):
            yield value[:ix] + value[ix + 1:]
            for smaller in shrink_value(value[ix]):
                yield value[:ix] + [smaller] + value[ix + 1:]
    elif isinstance(value, dict):
        yield from value.values()
        for key in value:
            yield {k: v for k, v in value.items() if k != key}
            for smaller in shrink_value(value[key]):
                yield {k: (smaller if k == key else v) for k, v in value.items()}
    elif isinstance(value, str) and value:
        for ix in range(len(value)):
            yield value[:ix] + value[ix + 1:]


FRAGMENTS = ['.0', '.00', '1.0', '5.0,', '1.0}', '2.0]', '.0\n', '"', '\\', '\\"', '",', '":', '{', '}', '[', ']', ',', ':', ' ', '\n', '\r', '\t', '\x00', '\x1f', '\x7f', 'a', 'b', 'é', '\u2028', '\u2029', '\U0001f600',
             '\ud800', '\udfff', 'null', 'true', '1', '-0.0', '1e5', '\\u0041', '/', '</script>', "'", '{"a":1.0}', '0', '.', '.0,"', '\\.0', '\b', '\f', '中', '\uffff', '\x85', '\xa0', '"}.0,{"']


def rand_str(rng):
    roll = rng.random()
    if roll < 0.1:
        return ''
    if roll < 0.8:
        text = ''.join(rng.choice(FRAGMENTS) for _ in range(rng.randrange(1, 6)))
    else:
        text = ''.join(chr(rng.choice([rng.randrange(0x80), rng.randrange(0x800), rng.randrange(0x10000), rng.randrange(0x110000)])) for _ in range(rng.randrange(1, 8)))
    # Two code units that form one code point are one character
    return re.sub('[\ud800-\udbff](?=[\udc00-\udfff])', '', text)


def rand_num(rng):
    roll = rng.random()
    if roll < 0.3:
        return rng.choice([0, 1, -1, 0.0, -0.0, 1.0, 10.0, 100.0, 0.5, 1.5, 100, 1e15, 1e16, 1e21, 1e22, -1e16, 1e-7, 5e-324, 1.7976931348623157e308, 2 ** 53, 2 ** 64, 10 ** 20, 120.0, 1.10, 1.05, 10.01, 1e100])
    if roll < 0.5:
        return rng.randrange(-1000, 1000)
    if roll < 0.7:
        return float(rng.randrange(-10000, 10000)) * rng.choice([1, 10, 100, 0.1, 0.01])
    x = struct.unpack('<d', struct.pack('<Q', rng.getrandbits(64)))[0]
    return x if math.isfinite(x) else 7.0


def rand_json(rng, depth):
    roll = rng.random()
    if depth > 0 and roll < 0.3:
        return [rand_json(rng, depth - 1) for _ in range(rng.choice([0, 1, 1, 2, 3, 3, 12]) if depth < 4 else rng.randrange(4))]
    if depth > 0 and roll < 0.6:
        return {rand_str(rng) if rng.random() < 0.7 else rng.choice('abcxyz'): rand_json(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 3, 3, 12]) if depth < 4 else rng.randrange(4))}
    if roll < 0.75:
        return rand_str(rng)
    if roll < 0.92:
        return rand_num(rng)
    return rng.choice([None, True, False])


def gen_values(rng, params):
    for _ in range(params):
        value = rand_json(rng, rng.randrange(0, 6))
        text = json.dumps(value)
        if len(text) > 6000:
            continue
        yield 'value', {'v': enc(value), 'indents': [rng.choice([1, 2, 3, 4, 4.0, 10])]}
        if rng.random() < 0.1:
            yield 'script', {'v': enc(value)}


def gen_strings(rng, params):
    """Fragments alone and in pairs, as strings, keys, in the last position"""
    part, parts = params
    for ix, left in enumerate(FRAGMENTS + ['']):
        if ix % parts != part:
            continue
        for right in FRAGMENTS + ['']:
            text = re.sub('[\ud800-\udbff](?=[\udc00-\udfff])', '', left + right)
            yield 'value', {'v': enc([text, {text: 1.0, 'k': text}, 5.0]), 'indents': [2]}
            yield 'value', {'v': enc(text), 'indents': [1]}


def gen_numbers(rng, params):
    for exp in range(-30, 31):
        for mant in (1, 1.5, 2.25, 10, 100, 123):
            yield 'value', {'v': enc([mant * 10.0 ** exp, {'a': -mant * 10.0 ** exp}]), 'indents': [1]}
    for code in range(0, 0x300):
        yield 'value', {'v': enc({chr(code): chr(code) + '.0'}), 'indents': [2]}
    for _ in range(params):
        yield 'value', {'v': enc([rand_num(rng) for _ in range(4)]), 'indents': [rng.choice([1, 4])]}


def tasks(tier):
    quick = tier == 'quick'
    res = [(f'values-{p}', gen_values, 1200 if quick else 40000) for p in range(12)]
    res += [(f'strings-{p}', gen_strings, (p, 4)) for p in range(4)]
    res += [('numbers', gen_numbers, 1500 if quick else 50000)]
    return res


del random
