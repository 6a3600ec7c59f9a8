"""C18: lint is pure, never fails, and its warnings are semantically justified"""

import copy
import glob
import json
import os
import re
import subprocess
import sys

from hv import progs
from hv.core import SRC, Skip, enc
from hv.props import c08
from specs.model_spec import is_script, scopes

TITLE = 'justification of lint warnings'
RULE = ('random jump-level models up to 40 statements with user labels, duplicate labels, dangling jumps, duplicate functions and arguments, uses hidden in every expression and statement '
        'position, parsed structured programs and the shipped scripts; label and redefinition warnings compared with an independent count, every other removal/rename suggestion '
        'applied and both models run on several condition schedules; purity by deep comparison, determinism across hash seeds; non-trivial: at least one warning')

WARNINGS = [
    ('empty', re.compile(r'Empty script')),
    ('before', re.compile(r'Global variable "(?P<item>.*)" used \(index \d+\) before assignment \(index (?P<ix>\d+)\)', re.S)),
    ('before', re.compile(r'Variable "(?P<item>.*)" of function "(?P<fn>.*)" used \(index \d+\) before assignment \(index (?P<ix>\d+)\)', re.S)),
    ('unused-variable', re.compile(r'Unused variable "(?P<item>.*)" defined in function "(?P<fn>.*)" \(index (?P<ix>\d+)\)', re.S)),
    ('duplicate-argument', re.compile(r'Duplicate argument "(?P<item>.*)" of function "(?P<fn>.*)" \(index (?P<ix>\d+)\)', re.S)),
    ('unused-argument', re.compile(r'Unused argument "(?P<item>.*)" of function "(?P<fn>.*)" \(index (?P<ix>\d+)\)', re.S)),
    ('pointless', re.compile(r'Pointless global statement \(index (?P<ix>\d+)\)')),
    ('pointless', re.compile(r'Pointless statement in function "(?P<fn>.*)" \(index (?P<ix>\d+)\)', re.S)),
    ('redefinition-function', re.compile(r'Redefinition of function "(?P<item>.*)" \(index (?P<ix>\d+)\)', re.S)),
    ('redefinition-label', re.compile(r'Redefinition of global label "(?P<item>.*)" \(index (?P<ix>\d+)\)', re.S)),
    ('redefinition-label', re.compile(r'Redefinition of label "(?P<item>.*)" in function "(?P<fn>.*)" \(index (?P<ix>\d+)\)', re.S)),
    ('unused-label', re.compile(r'Unused global label "(?P<item>.*)" \(index (?P<ix>\d+)\)', re.S)),
    ('unused-label', re.compile(r'Unused label "(?P<item>.*)" in function "(?P<fn>.*)" \(index (?P<ix>\d+)\)', re.S)),
    ('unknown-label', re.compile(r'Unknown global label "(?P<item>.*)" \(index (?P<ix>\d+)\)', re.S)),
    ('unknown-label', re.compile(r'Unknown label "(?P<item>.*)" in function "(?P<fn>.*)" \(index (?P<ix>\d+)\)', re.S)),
]


def read_warning(text):
    for kind, regex in WARNINGS:
        match = regex.fullmatch(text)
        if match is not None:
            groups = match.groupdict()
            return kind, groups.get('fn'), groups.get('item'), int(groups['ix']) if groups.get('ix') is not None else None
    return 'other', None, None, None


def lint_scopes(script, nested=False):
    """(function name or None, statements, argument names) of the scopes"""
    for fn, statements in scopes(script):
        if fn is None:
            yield None, statements, []
        elif nested or any(st.get('function') is fn for st in script['statements']):
            yield fn['name'], statements, fn.get('args') or []


def exact(script, nested=False):
    """The label and redefinition warnings that are due: set of (kind, function, item)"""
    due = set()
    for fn, statements, args in lint_scopes(script, nested):
        labels = [st['label'] for st in statements if 'label' in st]
        for st in statements:
            if 'jump' in st and st['jump']['label'] not in labels:
                due.add(('unknown-label', fn, st['jump']['label']))
        due |= {('redefinition-label', fn, label) for label in labels if labels.count(label) > 1}
        due |= {('duplicate-argument', fn, arg) for arg in args if args.count(arg) > 1}
        if fn is None or nested:
            names = [st['function']['name'] for st in statements if 'function' in st]
            due |= {('redefinition-function', None, name) for name in names if names.count(name) > 1}
    return due


EXACT = {'unknown-label', 'redefinition-label', 'duplicate-argument', 'redefinition-function'}


def check_lint(case):
    from bare_script import lint_script  # pylint: disable=import-outside-toplevel
    model = case['model']
    if not is_script(model):
        raise Skip()
    before = copy.deepcopy(model)
    warnings = lint_script(model)
    if model != before or json.dumps(model) != json.dumps(before):
        return f'model modified: {before!r} became {model!r}'
    if not isinstance(warnings, list) or not all(isinstance(warning, str) for warning in warnings):
        return f'not a list of warnings: {warnings!r}'
    again = lint_script(copy.deepcopy(model))
    if again != warnings or lint_script(model) != warnings:
        return f'warnings vary: {warnings!r} and {again!r} for {model!r}'
    read = [read_warning(warning) for warning in warnings]
    got = {entry[:3] for entry in read if entry[0] in EXACT}
    due = exact(model, case.get('nested', False))
    if got != due:
        extra, missing = sorted(got - due, key=repr), sorted(due - got, key=repr)
        return f'{"warning missing" if missing else "unjustified warning"}: {missing or extra!r}; warnings {warnings!r} for {model!r}'
    if 'sched' not in case and 'scheds' not in case:
        return None
    # Act on each of the others
    runs = None
    for kind, fn, item, ix in read:
        if kind not in ('unused-variable', 'unused-argument', 'unused-label', 'pointless'):
            continue
        edits = list(apply_edit(model, kind, fn, item, ix))
        if not edits:
            return f'warning without a subject: {kind} {item!r} of {fn!r} at {ix}; {model!r}'
        if runs is None:
            runs = [behaviour(case, model, sched, 400) for sched in case['scheds']]
        reasons = []
        for edited in edits:
            reason = None
            for sched, run in zip(case['scheds'], runs):
                if run[0] == ['budget']:
                    continue
                other = behaviour(case, edited, sched, 1500)
                if other != run:
                    reason = f'{run!r} became {other!r} on {sched!r}'
                    break
            if reason is None:
                break
            reasons.append(reason)
        else:
            return f'unjustified warning: acting on {kind} {item!r} (function {fn!r}, index {ix}) changes the behaviour: {reasons[0]}; model {model!r}'
    return None


def behaviour(case, model, sched, limit):
    outcome, log, glob_, _ = c08.run_real({**case, 'sched': sched}, model, limit)
    return outcome, log, glob_


def apply_edit(model, kind, fn, item, ix):
    """The models with the reported item renamed or deleted (more than one if functions share the name)"""
    if fn is None:
        targets = [None]
    else:
        targets = [pos for pos, st in enumerate(model['statements']) if 'function' in st and st['function']['name'] == fn]
        if kind == 'unused-argument':
            targets = [pos for pos in targets if pos == ix] or targets
    for pos in targets:
        edited = copy.deepcopy(model)
        holder = edited if pos is None else edited['statements'][pos]['function']
        statements = holder['statements']
        if kind == 'pointless':
            if ix < len(statements) and 'expr' in statements[ix]:
                del statements[ix]
                yield edited
        elif kind == 'unused-label':
            if any(st.get('label') == item for st in statements):
                holder['statements'] = [st for st in statements if st.get('label') != item]
                yield edited
        elif kind == 'unused-argument':
            if item in holder.get('args', []):
                holder['args'] = [arg if arg != item else '__hvRenamed' for arg in holder['args']]
                yield edited
        else:
            found = False
            for st in statements:
                if 'expr' in st and st['expr'].get('name') == item:
                    st['expr']['name'] = '__hvRenamed'
                    found = True
            if found:
                yield edited


HASH_RUNNER = '''
import json, sys
sys.path[:0] = %r
from bare_script import lint_script
print(json.dumps([lint_script(model) for model in json.load(sys.stdin)]))
'''


def check_hash(case):
    """The same warnings in processes with other string hashes"""
    outs = set()
    paths = [SRC] + [path for path in sys.path if path.endswith('site-packages')]
    for seed in ('1', '2', '3', '77'):
        proc = subprocess.run([sys.executable, '-B', '-c', HASH_RUNNER % (paths,)], input=json.dumps(case['models']), capture_output=True, text=True, check=False,
                              env={**os.environ, 'PYTHONHASHSEED': seed})
        if proc.returncode != 0:
            return f'lint failed in a subprocess: {proc.stderr[-500:]}'
        outs.add(proc.stdout)
    if len(outs) > 1:
        lists = [json.loads(out) for out in outs]
        for ix, model in enumerate(case['models']):
            if any(one[ix] != lists[0][ix] for one in lists):
                return f'warnings vary: with the hash seed: {[one[ix] for one in lists]!r} for {model!r}'
    return None


CHECKS = {'lint': check_lint, 'hash': check_hash}


def nontrivial(_kind, _case):
    return True


def shrink(kind, case):
    if kind == 'hash':
        for model in case['models']:
            if len(case['models']) > 1:
                yield {**case, 'models': [model]}
        return
    yield from c08.shrink(kind, case)


def scheds_of(rng):
    return [progs.random_sched(rng, 'xyzw') for _ in range(3)]


def gen_models(rng, params):
    models = []
    for _ in range(params):
        model = {'statements': c08.rand_statements(rng, rng.randrange(0, 41), 1)}
        models.append(model)
        yield 'lint', {'model': model, 'scheds': scheds_of(rng), 'globals': {'a': enc(rng.choice([1, 'g', None])), 'q': 'Q'}}
    yield 'hash', {'models': models[:40]}


def hide(rng, inner, depth):
    """An expression with the inner expression somewhere inside"""
    for _ in range(depth):
        other = rng.choice([{'number': 1}, {'string': 'k'}, {'variable': 'a'}, {'variable': 'null'}])
        roll = rng.randrange(7)
        if roll == 0:
            inner = {'group': inner}
        elif roll == 1:
            inner = {'unary': {'op': rng.choice('!-'), 'expr': inner}}
        elif roll == 2:
            inner = {'binary': {'op': rng.choice(['+', '==', '<', '&&', '||', '!=', '*', '-', '**', '/', '%']), 'left': inner, 'right': other}}
        elif roll == 3:
            inner = {'binary': {'op': rng.choice(['+', '==', '<', '&&', '||', '!=', '>=']), 'left': other, 'right': inner}}
        elif roll == 4:
            inner = {'function': {'name': 'arrayNew', 'args': [other] * rng.randrange(3) + [inner] + [other] * rng.randrange(2)}}
        elif roll == 5:
            inner = {'function': {'name': 'if', 'args': rng.choice([[inner, other, {'number': 7}], [{'variable': 'true'}, inner, other], [{'variable': 'false'}, other, inner]])}}
        else:
            inner = {'function': {'name': 'out', 'args': [inner]}}
    return inner


def gen_hidden(rng, params):
    """One variable, argument, label or call, used in one place that is hard to see"""
    out = lambda expr: {'expr': {'expr': {'function': {'name': 'out', 'args': [expr]}}}}
    for _ in range(params):
        depth = rng.randrange(0, 5)
        var = rng.choice(['v', 'p', 'if', 'toString', 'x y', 'null1', ''])
        use = hide(rng, {'variable': var}, depth)
        roll = rng.randrange(6)
        if roll == 0:
            last = [out(use)]
        elif roll == 1:
            last = [{'return': {'expr': use}}]
        elif roll == 2:
            last = [{'jump': {'label': 'L', 'expr': use}}, out({'string': 'not jumped'}), {'label': 'L'}, out({'string': 'end'})]
        elif roll == 3:
            last = [{'expr': {'name': 'w', 'expr': use}}, out({'variable': 'w'})]
        elif roll == 4:
            last = [{'expr': {'expr': hide(rng, {'function': {'name': 'out', 'args': [{'variable': var}]}}, depth)}}]
        else:
            last = [{'expr': {'expr': hide(rng, {'function': {'name': var, 'args': []}}, depth)}}, {'return': {'expr': {'variable': 'a'}}}]
        first = [{'expr': {'name': var, 'expr': rng.choice([{'number': 5}, {'string': 'val'}, {'variable': 'out'}, {'function': {'name': 'arrayNew', 'args': []}}])}}] if rng.random() < 0.6 else []
        body = first + last
        for _ in range(rng.randrange(0, 3)):
            body.insert(rng.randrange(len(body) + 1), rng.choice([
                {'label': rng.choice('LMN')}, {'jump': {'label': rng.choice('LMN'), 'expr': c08.COND('x')}}, {'expr': {'expr': hide(rng, {'variable': 'a'}, 2)}},
                {'expr': {'name': 'unused', 'expr': c08.COND('y')}}, {'expr': {'name': var, 'expr': {'number': 6}}}]))
        if rng.random() < 0.6:
            fn = {'name': 'f', 'statements': body}
            args = rng.choice([None, [var], [var, 'b'], ['b', var], [var, var], ['c', 'b', var]])
            if args is not None:
                fn['args'] = args
                if rng.random() < 0.3:
                    fn['lastArgArray'] = True
            statements = [{'function': fn}, out({'function': {'name': 'f', 'args': [{'string': 'A'}, {'string': 'B'}, {'string': 'C'}][:rng.randrange(4)]}})]
            if rng.random() < 0.2:
                statements.append({'function': {'name': 'f', 'statements': [out({'variable': var})], 'args': ['z']}})
                statements.append(out({'function': {'name': 'f'}}))
        else:
            statements = body
        yield 'lint', {'model': {'statements': statements}, 'scheds': scheds_of(rng), 'globals': {'a': enc(rng.choice([1, 'g', None])), 'q': 'Q'}}


LABELS = [{'label': 'A'}, {'label': 'B'}, {'jump': {'label': 'A'}}, {'jump': {'label': 'B', 'expr': c08.COND('x')}}, {'jump': {'label': 'C', 'expr': c08.COND('y')}}, c08.OUT('o')]


def gen_labels(_rng, _params):
    """Every small list of labels and jumps, at global level, in a function, and in both"""
    import itertools  # pylint: disable=import-outside-toplevel
    scheds = [{}, {'x': [True], 'y': []}, {'x': [False, True], 'y': [False, True]}]
    for length in (0, 1, 2, 3, 4):
        for atoms in itertools.product(LABELS, repeat=length):
            yield 'lint', {'model': {'statements': list(atoms)}, 'scheds': scheds}
            if length < 4:
                fn = {'function': {'name': 'f', 'args': ['x'], 'statements': list(atoms)}}
                for outer in ([], [{'label': 'A'}], [{'jump': {'label': 'C'}}], [{'label': 'C'}, {'label': 'B'}]):
                    yield 'lint', {'model': {'statements': outer + [fn, {'expr': {'expr': c08.call('f')}}]}, 'scheds': scheds}
    for args in itertools.product('ab', repeat=3):
        for names in itertools.product('fg', repeat=3):
            yield 'lint', {'model': {'statements': [{'function': {'name': name, 'args': list(args[:ix + 1]), 'statements': []}} for ix, name in enumerate(names)]}, 'scheds': []}


def gen_parsed(rng, params):
    from bare_script import parse_script  # pylint: disable=import-outside-toplevel
    models = []
    for _ in range(params):
        case = progs.random_case(rng, 4)
        model = parse_script(progs.text_of(case['prog']).replace('tick()', 'out()'))
        models.append(model)
        yield 'lint', {'model': model, 'scheds': [case['sched'], {}], 'globals': case['globals']}
    yield 'hash', {'models': models[:20]}


def gen_shipped(_rng, _params):
    from bare_script import parse_script  # pylint: disable=import-outside-toplevel
    models = []
    for path in sorted(glob.glob(os.path.join(SRC, 'bare_script/**/*.bare'), recursive=True)):
        with open(path, encoding='utf-8') as fh:
            models.append(parse_script(fh.read()))
    for model in models:
        yield 'lint', {'model': model}
    yield 'hash', {'models': models}


def gen_nested(_rng, _params):
    """Functions in function bodies (known finding: lint does not look into them)"""
    jump = {'jump': {'label': 'nowhere'}}
    yield 'lint', {'model': {'statements': [{'function': {'name': 'f', 'statements': [{'function': {'name': 'g', 'statements': [jump]}}]}}]}, 'nested': True}


def tasks(tier):
    quick = tier == 'quick'
    res = [(f'models-{p}', gen_models, 500 if quick else 12000) for p in range(8)]
    res += [(f'hidden-{p}', gen_hidden, 1500 if quick else 40000) for p in range(4)]
    res += [('labels', gen_labels, None), ('shipped', gen_shipped, None), ('nested', gen_nested, None)]
    res += [(f'parsed-{p}', gen_parsed, 250 if quick else 4000) for p in range(4)]
    return res
