"""C13: numbers survive conversion to text and back"""

import math
import random
import re
import struct

from hv.core import Skip, dec, enc

TITLE = 'number text round-trip'
RULE = ('doubles from uniform random bit patterns, every power of ten and two, integers around 2**53, 1e15, 1e16, 1e21, subnormals, -0, short decimals, ints; each '
        'stringified five ways and parsed back two ways; random near-miss texts for the parsers against a strict grammar; non-trivial: the number is not 0..9')

CONCAT = {'binary': {'op': '+', 'left': {'string': ''}, 'right': {'variable': 'x'}}}
CONCAT2 = {'binary': {'op': '+', 'left': {'variable': 'x'}, 'right': {'string': ''}}}


def identical(a, b):
    """The same double (0 and -0 distinguished)"""
    return isinstance(a, (int, float)) and not isinstance(a, bool) and a == b and (a != 0 or math.copysign(1, a) == math.copysign(1, b))


def texts(x):
    from bare_script import evaluate_expression, execute_script  # pylint: disable=import-outside-toplevel
    from bare_script.library import SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
    from bare_script.value import value_string  # pylint: disable=import-outside-toplevel
    log = []
    SCRIPT_FUNCTIONS['systemLog']([x], {'logFn': log.append})
    yield 'value_string', value_string(x)
    yield '"" + x', evaluate_expression(CONCAT, None, {'x': x}, False)
    yield 'x + ""', evaluate_expression(CONCAT2, None, {'x': x}, False)
    yield 'stringNew', SCRIPT_FUNCTIONS['stringNew']([x], None)
    yield 'arrayJoin', SCRIPT_FUNCTIONS['arrayJoin']([[x], ','], None)
    yield 'systemLog', log[0]
    del execute_script


def check_number(case):
    from bare_script import BareScriptParserError, parse_expression  # pylint: disable=import-outside-toplevel
    from bare_script.library import SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
    x = dec(case)
    seen = set()
    for how, text in texts(x):
        if text in seen:
            continue
        seen.add(text)
        if not isinstance(text, str):
            return f'text differs: {how} of {x!r} is {text!r}'
        got = SCRIPT_FUNCTIONS['numberParseFloat']([text], None)
        if not identical(got, x):
            return f'round trip differs: {how} of {x!r} is {text!r}, numberParseFloat gives {got!r}'
        if x > 0 or (x == 0 and math.copysign(1, x) > 0):
            try:
                model = parse_expression(text)
            except BareScriptParserError as exc:
                return f'literal rejected: {how} of {x!r} is {text!r}: {exc.error}'
            if list(model) != ['number'] or not identical(model['number'], x):
                return f'literal differs: {how} of {x!r} is {text!r}, as source text {model!r}'
        if x == int(x):
            mantissa, _, _ = text.partition('e')
            if ('e' not in text and '.' in text) or re.search(r'\.\d*0$|\.$', mantissa):
                return f'integral number has a fraction: {how} of {x!r} is {text!r}'
            if abs(x) < 1e15 and text != ('-0' if x == 0 and math.copysign(1, x) < 0 else str(int(x))):
                return f'integral number text differs: {how} of {x!r} is {text!r}'
            if isinstance(x, int) or abs(x) < 1e15:
                got = SCRIPT_FUNCTIONS['numberParseInt']([text], None)
                if got != x:
                    return f'round trip differs: {how} of {x!r} is {text!r}, numberParseInt gives {got!r}'
    if len(seen) != 1:
        return f'texts differ: {x!r} prints as {sorted(seen)!r}'
    return None


FLOAT = re.compile(r'[+-]?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:[eE][+-]?[0-9]+)?')
DIGITS = '0123456789abcdefghijklmnopqrstuvwxyz'


def foreign_digits(text):
    return any(ch.isdigit() and ch not in '0123456789' for ch in text)


def check_float_text(text):
    from bare_script.library import SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
    if foreign_digits(text):
        raise Skip()
    got = SCRIPT_FUNCTIONS['numberParseFloat']([text], None)
    if FLOAT.fullmatch(text):
        want = float(text)
        if math.isinf(want):
            want = None
        if not (got is None and want is None or got is not None and want is not None and identical(got, want)):
            return f'numberParseFloat differs: {text!r} gives {got!r}, expected {want!r}'
        return None
    if FLOAT.fullmatch(text.strip()):
        # A number with surrounding blanks: a number or null, but not another value
        want = float(text)
        if got is not None and not identical(got, want):
            return f'numberParseFloat differs: {text!r} gives {got!r}'
        return None
    if got is not None:
        return f'numberParseFloat differs: {text!r} is not a number but gives {got!r}'
    return None


def check_int_text(case):
    from bare_script.library import SCRIPT_FUNCTIONS  # pylint: disable=import-outside-toplevel
    text, radix = case
    if foreign_digits(text):
        raise Skip()
    args = [text] if radix is None else [text, radix]
    base = int(radix) if radix is not None else 10
    got = SCRIPT_FUNCTIONS['numberParseInt'](args, None)
    if isinstance(got, bool) or (got is not None and not isinstance(got, (int, float))) or (isinstance(got, float) and not math.isfinite(got)):
        return f'numberParseInt differs: {text!r} radix {radix} gives {got!r}'
    core = text.strip()
    body = core[1:] if core[:1] in ('+', '-') else core
    if re.match(r'0[xXbBoO]', body) and base in (2, 8, 16):
        raise Skip()  # whether a radix prefix belongs to the number is not specified
    if body and all(ch in DIGITS[:base] for ch in body.lower()) and body.isascii():
        if len(body) > 300:
            raise Skip()
        want = 0
        for ch in body.lower():
            want = want * base + DIGITS.index(ch)
        if core[:1] == '-':
            want = -want
        if got == want and got is not None or (got is None and core != text):
            return None
        return f'numberParseInt differs: {text!r} radix {radix} gives {got!r}, expected {want}'
    if got is not None:
        return f'numberParseInt differs: {text!r} is not a radix {base} number but gives {got!r}'
    return None


CHECKS = {'number': check_number, 'float_text': check_float_text, 'int_text': check_int_text}


def nontrivial(kind, case):
    return kind != 'number' or case not in range(10)


def shrink(kind, case):
    if kind == 'float_text' and len(case) < 100:
        for ix in range(len(case)):
            yield case[:ix] + case[ix + 1:]
    if kind == 'int_text' and len(case[0]) < 100:
        for ix in range(len(case[0])):
            yield [case[0][:ix] + case[0][ix + 1:], case[1]]


def gen_special(_rng, _params):
    seen = set()

    def give(x):
        if math.isfinite(x) and (x, math.copysign(1, x), type(x)) not in seen:
            seen.add((x, math.copysign(1, x), type(x)))
            return [enc(x)]
        return []
    nums = [0.0, -0.0, 5e-324, 2.2250738585072014e-308, 2.225073858507201e-308, 1.7976931348623157e308, 0.1, 0.2, 0.3, 1 / 3, 2 / 3, 1e-7, 1e-5, 1e-4, 0.001, 1.0e-6, 9.999999999999999e22, 123456.789, 100.0, 1000.0]
    for exp in range(-323, 309):
        for mant in (1, 1.5, 2, 9.999999999999999, 1.2345678901234567, 3):
            try:
                nums.append(float(f'{mant}e{exp}'))
            except OverflowError:
                pass
    for exp in range(-1074, 1024):
        nums.append(math.ldexp(1.0, exp))
    for center in (2 ** 53, 10 ** 15, 10 ** 16, 10 ** 17, 10 ** 21, 10 ** 22, 10 ** 20, 2 ** 63, 2 ** 64, 10 ** 14):
        for delta in range(-40, 41):
            nums.append(float(center + delta))
            if float(center + delta) == center + delta:
                nums.append(center + delta)
            nums.append((center + delta) / 2)
            nums.append((center + delta) / 10)
    nums += list(range(-50, 1100)) + [n + 0.5 for n in range(100)] + [n / 100 for n in range(-200, 1000)] + [n * 10.0 for n in range(200)]
    for x in nums:
        for y in (x, -x):
            for case in give(y):
                yield 'number', case
            if isinstance(y, float) and abs(y) < 1e300:
                for case in give(math.nextafter(y, math.inf)) + give(math.nextafter(y, -math.inf)):
                    yield 'number', case


def gen_bits(rng, params):
    for _ in range(params):
        x = struct.unpack('<d', struct.pack('<Q', rng.getrandbits(64)))[0]
        if math.isfinite(x):
            yield 'number', enc(x)


def gen_mixed(rng, params):
    for _ in range(params):
        roll = rng.random()
        if roll < 0.25:
            x = float(rng.randrange(-10 ** rng.randrange(1, 24), 10 ** rng.randrange(1, 24)))
        elif roll < 0.5:
            x = rng.randrange(-10 ** 9, 10 ** 9) / 10 ** rng.randrange(0, 12)
        elif roll < 0.65:
            x = rng.uniform(-1, 1) * 10.0 ** rng.randrange(-300, 300)
        elif roll < 0.8:
            x = rng.randrange(0, 1000) * 10.0 ** rng.randrange(0, 30)
        elif roll < 0.9:
            x = rng.randrange(-2 ** 53, 2 ** 53)
        else:
            x = float(rng.randrange(1, 100) * 10 ** rng.randrange(10, 20))
        yield 'number', enc(x)


FLOAT_WORDS = ['', ' ', '.', '-', '+', 'e', 'E', 'e5', 'nan', 'NaN', 'inf', '-inf', 'Infinity', 'infinity', '-Infinity', '+nan', '1e400', '-1e400', '1e-400', '1_000', '1__0', '_1', '1_', '0x10', '0b1', '1,000', '1 000',
               '1e', '1e+', '1.e5', '.5', '5.', '..5', '5..', '1.2.3', '--1', '+-1', '1-', '1+', '12abc', 'abc12', '1f', '1d', '1L', '1j', '1.5.', 'null', 'true', '0x', '1e5', '1E5', '1e+5', '1e-5', '1.5e10', '00', '007',
               '-0', '+0', '9' * 308, '9' * 309, '9' * 400, '-' + '9' * 400, ' 1', '1 ', '\t1\n', '1\x00', '1\n2', '½', '1\u00a0', '−1', '1e１', '0.1', '1e308', '1.8e308', '1.7976931348623159e308', '5e-325', '2e-324', '#1', '$1', '1%',
               'e1', '.e1', '1.e', '1 e5', '1e 5', '(1)', '[1]', '"1"', "'1'", '1;', '1/2', '1:2', '0.0.0', 'infinit', 'na', 'nan(1)', 'snan', 'INF', 'iNf']


def gen_texts(rng, params):
    for word in FLOAT_WORDS:
        yield 'float_text', word
        for radix in (None, 2, 8, 10, 16, 36, 10.0, 3.0):
            yield 'int_text', [word, radix]
    alphabet = ['0', '1', '5', '9', '.', '-', '+', 'e', 'E', '_', ' ', 'a', 'f', 'x', 'z', 'nan', 'inf', ',', '\n', '00', '7']
    for _ in range(params):
        text = ''.join(rng.choice(alphabet) for _ in range(rng.randrange(0, 8)))
        yield 'float_text', text
        yield 'int_text', [text, rng.choice([None, 2, 3, 7, 8, 10, 11, 16, 20, 35, 36, 16.0, 2.0])]
    for _ in range(params // 4):
        radix = rng.randrange(2, 37)
        digits = ''.join(rng.choice(DIGITS[:radix]) for _ in range(rng.randrange(1, 14)))
        yield 'int_text', [rng.choice(['', '', '-', '+']) + (digits.upper() if rng.random() < 0.3 else digits), rng.choice([radix, float(radix)])]
        yield 'int_text', [digits[:3] + DIGITS[radix:radix + 1] + digits[3:], radix]
        num = repr(rng.uniform(-1, 1) * 10.0 ** rng.randrange(-20, 20))
        pos = rng.randrange(len(num) + 1)
        yield 'float_text', num
        yield 'float_text', num[:pos] + rng.choice(alphabet) + num[pos:]


def tasks(tier):
    quick = tier == 'quick'
    res = [('special', gen_special, None)]
    res += [(f'bits-{p}', gen_bits, 10000 if quick else 400000) for p in range(8)]
    res += [(f'mixed-{p}', gen_mixed, 6000 if quick else 200000) for p in range(8)]
    res += [(f'texts-{p}', gen_texts, 8000 if quick else 150000) for p in range(4)]
    return res


del random
