"""C15: array, object and string functions obey their sequence/map/string contracts"""

import re

from hv import values
from hv.core import FN_A, FN_B, HvFn, Skip, dec, enc
from specs.lib_spec import C15_FUNCTIONS, FAIL, SIGS, spec_call, spec_validate
from specs.value_spec import spec_is_number

TITLE = 'sequence/map/string contracts of the library functions'
RULE = ('histories of 1-30 calls of the array*, object*, string*, regexEscape and urlEncode* functions, run as script statements on a pool of aliased containers with float-literal '
        'indices in -2..len+2 and wrong-typed, missing and surplus arguments; after every call the result and the whole container graph (identities included) compared with a '
        'reference list/dict/str model; escape and percent-encoding laws on single strings; non-trivial: at least one call succeeded')



def rank(value):
    return value if spec_is_number(value) and value == value else 0


FN_DESC = HvFn('hvDesc', lambda args, options: (rank(args[0]) < rank(args[1])) - (rank(args[0]) > rank(args[1])))
FN_BIG = HvFn('hvBig', lambda args, options: spec_is_number(args[0]) and args[0] > 1)
FUNCS = [FN_A, FN_B, FN_DESC, FN_BIG]


class Iso:
    """A growing identity correspondence between real and model containers"""

    def __init__(self):
        self.left, self.right, self.keep = {}, {}, []

    def diff(self, real, model, path='', seen=None):
        """None, or where the two graphs differ"""
        seen = set() if seen is None else seen
        if isinstance(model, (list, dict)):
            if type(real) is not type(model):
                return f'{path}: {real!r}, not {model!r}'
            if self.left.setdefault(id(real), id(model)) != id(model) or self.right.setdefault(id(model), id(real)) != id(real):
                return f'{path}: {real!r} is {"not " if id(model) in self.right else ""}the container it should be'
            self.keep.append((real, model))
            if id(real) in seen:
                return None
            seen.add(id(real))
            if isinstance(model, list):
                if len(real) != len(model):
                    return f'{path}: {short(real)}, not {short(model)}'
                for ix, (x, y) in enumerate(zip(real, model)):
                    diff = self.diff(x, y, f'{path}[{ix}]', seen)
                    if diff is not None:
                        return diff
                return None
            if list(real) != list(model):
                return f'{path}: keys {list(real)!r}, not {list(model)!r}'
            for key in model:
                diff = self.diff(real[key], model[key], f'{path}.{key}', seen)
                if diff is not None:
                    return diff
            return None
        if isinstance(model, bool) or isinstance(real, bool) or model is None or callable(model):
            return None if real is model else f'{path}: {real!r}, not {model!r}'
        if spec_is_number(model):
            return None if spec_is_number(real) and (real == model or (real != real and model != model)) else f'{path}: {real!r}, not {model!r}'
        return None if type(real) is type(model) and real == model else f'{path}: {real!r}, not {model!r}'


def short(value):
    text = repr(value)
    return text if len(text) < 200 else text[:200] + '...'


def build_arg(ref):
    """(expression, model value getter) of an argument reference"""
    kind, val = ref
    if kind == 's':
        return {'variable': f's{val}'}
    val = dec(val)
    if spec_is_number(val) and val == val and abs(val) < 1e300 and val >= 0:
        return {'number': float(val)}
    if isinstance(val, str):
        return {'string': val}
    return None


def check_history(case):
    try:
        return check_history_(case)
    except RecursionError as exc:
        raise Skip() from exc


def check_history_(case):
    from bare_script import execute_script  # pylint: disable=import-outside-toplevel
    globals_ = {}
    model = []
    iso = Iso()

    def load(val):
        return dec(val)
    for ix, val in enumerate(case['store']):
        globals_[f's{ix}'] = load(val)
        model.append(load(val))
    for ix, parent, child in case.get('links', []):
        # Store entries inside store entries
        for root in (globals_, None):
            get = (lambda i, root=root: root[f's{i}']) if root is not None else (lambda i: model[i])
            if isinstance(get(parent), list):
                get(parent).append(get(child))
            elif isinstance(get(parent), dict):
                get(parent)[f'link{ix}'] = get(child)
    statements = []
    consts = 0
    margs_all = []
    for pos, (name, refs) in enumerate(case['calls']):
        args, margs = [], []
        for ref in refs:
            expr = build_arg(ref)
            if expr is None:
                globals_[f'c{consts}'] = load(ref[1])
                expr = {'variable': f'c{consts}'}
                consts += 1
                margs.append(('v', load(ref[1])))
            elif ref[0] == 's':
                margs.append(('s', ref[1]))
            else:
                margs.append(('v', load(ref[1])))
            args.append(expr)
        margs_all.append((name, margs))
        statements.append({'expr': {'name': f's{len(case["store"]) + pos}', 'expr': {'function': {'name': name, 'args': args}}}})
        statements.append({'expr': {'expr': {'function': {'name': 'hvSnap', 'args': []}}}})
    problems = []
    counter = [0]
    options = {'globals': globals_}

    def snap(_args, _options):
        pos = counter[0]
        counter[0] += 1
        name, margs = margs_all[pos]
        if problems:
            return None
        try:
            args = [model[val] if kind == 's' else val for kind, val in margs]
            if name == 'arraySort' and args and isinstance(args[0], list) and len(args[0]) > 60:
                problems.append(None)
                return None
            call_args = list(args)
            if name in LAWS:
                valid = spec_validate(name, call_args)
                if valid is not FAIL and LAWS[name](valid[0], globals_[f's{len(case["store"]) + pos}']) is None:
                    res = globals_[f's{len(case["store"]) + pos}']
                elif valid is not FAIL:
                    res = '<a text that obeys the law>'
                else:
                    res = None
            else:
                res, _ = spec_call(name, call_args, options)
            model.append(res)
            if len(repr(res)) > 100000:
                problems.append(None)
                return None
        except RecursionError:
            problems.append(None)
            return None
        seen = set()
        order = [len(model) - 1] + list(range(len(model) - 1))
        for ix in order:
            diff = iso.diff(globals_[f's{ix}'], model[ix], f's{ix}', seen)
            if diff is not None:
                what = 'result' if ix == len(model) - 1 else 'state'
                shown = ', '.join(short(arg) for arg in args)
                problems.append(f'{what} differs: call {pos}: {name}({shown}): {diff}')
                break
        return None
    globals_['hvSnap'] = snap
    for fn in FUNCS:
        globals_.setdefault(fn.hv_name, fn)
    execute_script({'statements': statements}, options)
    if problems:
        if problems[0] is None:
            raise Skip()
        return problems[0]
    if counter[0] != len(case['calls']):
        return f'calls lost: {counter[0]} of {len(case["calls"])} calls ran'
    return None


#
# Laws for the functions whose texts are not prescribed
#

def literal_text(pattern):
    """The text a pattern consisting of literal characters matches, None if it has other constructs"""
    try:
        parsed = re._parser.parse(pattern)  # pylint: disable=protected-access
    except re.error:
        return None
    chars = []
    for op, arg in parsed:
        if str(op) != 'LITERAL':
            return None
        chars.append(chr(arg))
    return ''.join(chars)


def law_regex_escape(text, got):
    if not isinstance(got, str):
        return f'regexEscape({text!r}) = {got!r}'
    if literal_text(got) == text:
        return None
    regex = re.compile(got)
    if regex.fullmatch(text) is None:
        return f'regexEscape({text!r}) = {got!r} does not match it'
    others = {text[:ix] + text[ix + 1:] for ix in range(len(text))} | {text[:ix] + ch + text[ix:] for ix in range(len(text) + 1) for ch in 'a.\\ \n'}
    others |= {text[:ix] + ch + text[ix + 1:] for ix in range(len(text)) for ch in 'ab0.\\ \n_^$'} | {text.upper(), text.lower(), text + text, ''}
    for other in sorted(others - {text}):
        if regex.fullmatch(other) is not None:
            return f'regexEscape({text!r}) = {got!r} also matches {other!r}'
    return None


def percent_decode(text):
    out = bytearray()
    ix = 0
    while ix < len(text):
        if text[ix] == '%':
            out.append(int(text[ix + 1:ix + 3], 16))
            ix += 3
        else:
            out += text[ix].encode('utf-8')
            ix += 1
    return out.decode('utf-8')


UNRESERVED = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~')


def law_url(text, got, allowed):
    try:
        text.encode('utf-8')
    except UnicodeEncodeError:
        return None if got is None or isinstance(got, str) else f'encoding of {text!r} is {got!r}'
    if not isinstance(got, str):
        return f'encoding of {text!r} is {got!r}'
    bad = [ch for ch in re.sub('%[0-9a-fA-F]{2}', '', got) if ch not in allowed]
    if bad:
        return f'encoding of {text!r} is {got!r}, which contains {bad[0]!r}'
    try:
        back = percent_decode(got)
    except ValueError:
        back = None
    if back != text:
        return f'encoding of {text!r} is {got!r}, which decodes to {back!r}'
    return None


LAWS = {
    'regexEscape': law_regex_escape,
    'urlEncode': lambda text, got: law_url(text, got, UNRESERVED | set("':/&+;,?@=$!*()#")),
    'urlEncodeComponent': lambda text, got: law_url(text, got, UNRESERVED | set("'!*()")),
}


def check_law(case):
    from bare_script import execute_script  # pylint: disable=import-outside-toplevel
    text = case['text']
    globals_ = {'s': text}
    got = execute_script({'statements': [{'return': {'expr': {'function': {'name': case['name'], 'args': [{'variable': 's'}]}}}}]}, {'globals': globals_})
    if globals_['s'] != text:
        return f'argument changed: {case["name"]}({text!r})'
    message = LAWS[case['name']](text, got)
    if message is not None:
        return 'law broken: ' + message
    if case['name'] == 'regexEscape':
        got = execute_script({'statements': [{'return': {'expr': {'function': {'name': 'regexMatchAll', 'args': [
            {'function': {'name': 'regexNew', 'args': [{'function': {'name': 'regexEscape', 'args': [{'variable': 's'}]}}]}}, {'variable': 't'}]}}}}]},
            {'globals': {'s': text, 't': '#' + text + '#' + text + '#'}})
        want = [m for m in re.finditer(re.escape(text), '#' + text + '#' + text + '#')]
        if not isinstance(got, list) or [(item['index'], item['groups']['0']) for item in got] != [(m.start(), m.group()) for m in want]:
            return f'law broken: the escaped {text!r} matches {got!r}'
    return None


CHECKS = {'history': check_history, 'law': check_law}


def nontrivial(_kind, _case):
    return True


def shrink(kind, case):
    if kind == 'law':
        for ix in range(len(case['text'])):
            yield {**case, 'text': case['text'][:ix] + case['text'][ix + 1:]}
        return
    calls = case['calls']
    base = len(case['store'])
    for ix in range(len(calls) - 1, -1, -1):
        if any(ref[0] == 's' and ref[1] == base + ix for _, refs in calls[ix + 1:] for ref in refs):
            continue
        rest = [[name, [['s', ref[1] - 1] if ref[0] == 's' and ref[1] > base + ix else ref for ref in refs]] for name, refs in calls[ix + 1:]]
        yield {**case, 'calls': calls[:ix] + rest}
    if case.get('links'):
        yield {**case, 'links': []}


WEIRD = [None, True, False, 0.5, -1, 'a', '', [], [1], {}, {'a': 1}, values.DATES[0], FN_A, values.REGEXES[0], float('nan'), float('inf'), 1e300]
LOCAL = [[1, 2, 3], [3, 1, 2, 1], ['b', 'a'], [], [None, 'x', 1.5, True], {'a': 1, 'b': 2}, {}, {'k': 'v', 'a': None}, 'hello world', 'abcabc', '', 'é\U0001f600x', ' \t x y\n', [[1], [1]], {'o': {}, 'l': []}]
TEXTS = ['', 'a', 'b', 'x', 'abc', ' ', ',', 'ab', 'ca', 'l', 'o w', '\U0001f600', 'A', 'ß', 'İ', '\x1f', '\u2003', '-', 'a.b', 'aa', 'aaa']
KEYS = ['a', 'b', 'k', 'o', '', 'missing', 'length', '0', '__proto__', 'link0']


class Tracker:
    """What the store holds while a history is generated (by running the reference model)"""

    def __init__(self, store, links):
        self.model = [dec(val) for val in store]
        for ix, parent, child in links:
            if isinstance(self.model[parent], list):
                self.model[parent].append(self.model[child])
            elif isinstance(self.model[parent], dict):
                self.model[parent][f'link{ix}'] = self.model[child]


def gen_arg(rng, name, param, tracker, length):
    want = param['type']
    if rng.random() < 0.07:
        return ['v', enc(rng.choice([val for val in WEIRD if not (param['name'] in ('count', 'size') and val == 1e300) and not (want == 'function' and val is FN_A)]))]
    of_type = {'array': list, 'object': dict, 'string': str}.get(want)
    if of_type is not None and (of_type is not str or rng.random() < 0.4):
        fits = [ix for ix, val in enumerate(tracker.model) if isinstance(val, of_type) and len(val) < 200]
        if fits and rng.random() < 0.9:
            return ['s', rng.choice(fits[:6] + fits[-6:])]
    if want == 'array':
        return ['v', enc(rng.choice([val for val in LOCAL if isinstance(val, list)]))]
    if want == 'object':
        return ['v', enc(rng.choice([val for val in LOCAL if isinstance(val, dict)]))]
    if want == 'string':
        return ['v', rng.choice(KEYS if param['name'] == 'key' else TEXTS + [val for val in LOCAL if isinstance(val, str)])]
    if want == 'number':
        if param['name'] in ('count', 'size'):
            return ['v', float(rng.randrange(0, 5))]
        return ['v', float(rng.randrange(-2, length + 3)) if rng.random() < 0.3 else float(rng.randrange(0, length + 1))]
    if want == 'function':
        return ['v', enc(rng.choice([FN_DESC, None]))]
    # Any value
    if name == 'stringFromCharCode':
        return ['v', rng.choice([97.0, 65.0, 0.0, 0x1f600, 1114111.0, 1114112.0, 55296.0, -1.0, 97.5, 8364.0, 122])]
    roll = rng.random()
    if roll < 0.35 and tracker.model:
        return ['s', rng.randrange(len(tracker.model))]
    if roll < 0.45 and name in ('arrayIndexOf', 'arrayLastIndexOf'):
        return ['v', enc(FN_BIG)]
    return ['v', enc(rng.choice([1.0, 2.0, 3.0, 0.0, 1.5, 'a', 'b', '', None, True, False, [1.0], {'a': 1.0}, values.DATES[0]]))]


def gen_call(rng, name, tracker):
    refs = []
    length = 3
    for param in SIGS[name][0]:
        for _ in range(rng.randrange(0, 4) if param['rest'] else 1):
            ref = gen_arg(rng, name, param, tracker, length)
            if name == 'objectNew' and len(refs) % 2 == 0 and rng.random() < 0.95:
                ref = ['v', rng.choice(KEYS)]
            refs.append(ref)
            val = tracker.model[ref[1]] if ref[0] == 's' else dec(ref[1])
            if isinstance(val, (list, str, dict)) and len(refs) == 1:
                length = min(len(val), 12)
    roll = rng.random()
    optional = sum(1 for param in SIGS[name][0] if param['nullable'] or param['type'] is None or not isinstance(param['default'], object) or param['default'] == 0)
    if optional and rng.random() < 0.4:
        refs = refs[:max(len(refs) - rng.randrange(1, optional + 1), 0)]
    elif roll < 0.06 and refs:
        refs = refs[:rng.randrange(len(refs))]
    elif roll < 0.1:
        refs.append(gen_arg(rng, name, {'type': None, 'name': 'surplus'}, tracker, length))
    return [name, refs]


def gen_histories(rng, params):
    count, maxlen = params
    names = [name for name in C15_FUNCTIONS if name not in LAWS]
    for _ in range(count):
        store = [enc(rng.choice(LOCAL)) for _ in range(rng.randrange(1, 5))]
        links = []
        for ix in range(rng.randrange(0, 3)):
            parent, child = rng.randrange(len(store)), rng.randrange(len(store))
            if child < parent:
                links.append([ix, parent, child])
        tracker = Tracker(store, links)
        calls = []
        focus = rng.choice([None, 'array', 'object', 'string', 'array'])
        use = [name for name in names if focus is None or name.startswith(focus)]
        for _ in range(rng.randrange(1, maxlen + 1)):
            for _ in range(5):
                call = gen_call(rng, rng.choice(use), tracker)
                args = [tracker.model[ref[1]] if ref[0] == 's' else dec(ref[1]) for ref in call[1]]
                if call[0] in ('arrayJoin', 'stringNew', 'arraySort', 'arrayIndexOf', 'arrayLastIndexOf') and cyclic(args):
                    continue
                if makes_cycle(call[0], args):
                    continue
                break
            else:
                continue
            try:
                tracker.model.append(spec_call(call[0], list(args), {'globals': {}})[0])
            except RecursionError:
                break
            calls.append(call)
            if any(isinstance(val, (list, str)) and len(val) > 300 for val in tracker.model):
                break
        yield 'history', {'store': store, 'links': links, 'calls': calls}


def reaches(value, target, depth=0):
    if value is target:
        return True
    if depth > 30:
        return True
    items = value if isinstance(value, list) else value.values() if isinstance(value, dict) else ()
    return any(reaches(item, target, depth + 1) for item in items)


def cyclic(args):
    def walk(value, path):
        if isinstance(value, (list, dict)):
            if id(value) in path:
                return True
            return any(walk(item, path | {id(value)}) for item in (value if isinstance(value, list) else value.values()))
        return False
    return any(walk(arg, frozenset()) for arg in args)


def makes_cycle(name, args):
    """Would the call put a container into itself?"""
    if name not in ('arrayPush', 'arraySet', 'objectSet', 'arrayExtend', 'objectAssign') or not args or not isinstance(args[0], (list, dict)):
        return False
    inside = args[1:]
    if name in ('arrayExtend', 'objectAssign'):
        inside = [item for arg in args[1:] if isinstance(arg, (list, dict)) for item in (arg if isinstance(arg, list) else arg.values())]
    return any(isinstance(item, (list, dict)) and reaches(item, args[0]) for item in inside)


def gen_single(rng, params):
    """Every function with every index, and with every wrong-typed argument in every position"""
    part, parts = params
    for ix_name, name in enumerate(C15_FUNCTIONS):
        if ix_name % parts != part:
            continue
        good = {'array': [[], [1.0], [2.0, 1.0, 2.0, 'x']], 'object': [{}, {'a': 1.0, 'b': None}], 'string': ['', 'a', 'abca', 'a b'], 'function': [FN_DESC], 'number': [float(n) for n in range(-2, 7)] + [0.5],
                None: [1.0, 'a', None, [1.0]]}
        tuples = [[]]
        for param in SIGS[name][0]:
            pool = good[param['type']]
            if name == 'stringFromCharCode':
                pool = [97.0, 98, 'x', -1.0, 1.5, None, True]
            if name == 'objectNew':
                pool = ['a', 1.0, 'b']
            if param['rest']:
                tuples = [args + extra for args in tuples for extra in ([[]] + [[x] for x in pool] + [[x, y] for x in pool for y in pool])]
            else:
                tuples += [args + [x] for args in tuples if len(args) == len(tuples[-1]) for x in pool]
        for args in tuples:
            yield 'history', {'store': [enc(arg) for arg in args if isinstance(arg, (list, dict))], 'calls': [[name, refs_of(args)]]}
            for jx in range(len(args)):
                for bad in [val for val in WEIRD if not (name in ('arrayNewSize', 'stringRepeat') and val == 1e300) and not (name == 'arraySort' and val is FN_A)]:
                    if rng.random() < 0.12:
                        other = args[:jx] + [bad] + args[jx + 1:]
                        yield 'history', {'store': [enc(arg) for arg in other if isinstance(arg, (list, dict))], 'calls': [[name, refs_of(other)]]}
            if rng.random() < 0.2:
                other = args + [rng.choice(WEIRD)]
                yield 'history', {'store': [enc(arg) for arg in other if isinstance(arg, (list, dict))], 'calls': [[name, refs_of(other)]]}


def refs_of(args):
    refs, count = [], 0
    for arg in args:
        if isinstance(arg, (list, dict)):
            refs.append(['s', count])
            count += 1
        else:
            refs.append(['v', enc(arg)])
    return refs


SPECIAL = list('.*+?^$(){}[]|\\/-#&~!\'",;:=@%<>_` \t\n\r\x0b\x0c\x00') + ['é', '中', '\U0001f600', 'a', 'Z', '0', '\u2028', '\x7f', '\xa0', 'ß', '٣', '%41', '\\d', '(?i)', '[a-z]', '\\Q', 'a|b', '%', '+', '\ud800']


def gen_laws(rng, params):
    for name in LAWS:
        for code in list(range(0x180)) + [0x2028, 0xfeff, 0xffff, 0x10000, 0x10ffff]:
            yield 'law', {'name': name, 'text': chr(code)}
            yield 'law', {'name': name, 'text': 'x' + chr(code) + '1' + chr(code)}
        for left in SPECIAL:
            for right in SPECIAL:
                yield 'law', {'name': name, 'text': left + right}
        for _ in range(params):
            text = ''.join(rng.choice(SPECIAL) if rng.random() < 0.7 else chr(rng.randrange(0x20, 0xd7ff)) for _ in range(rng.randrange(1, 12)))
            yield 'law', {'name': name, 'text': text}


def tasks(tier):
    quick = tier == 'quick'
    res = [(f'histories-{p}', gen_histories, (500 if quick else 20000, 30 if p % 2 else 8)) for p in range(12)]
    res += [(f'single-{p}', gen_single, (p, 8)) for p in range(8)]
    res += [('laws', gen_laws, 2000 if quick else 100000)]
    return res
