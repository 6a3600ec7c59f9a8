"""C17: includes resolve relative to the including file and run in global scope"""

import contextlib
import io
import os
import re
import shutil
import tempfile

from hv.core import Skip

TITLE = 'include resolution and execution'
RULE = ('random include trees to depth 4 and fan-out 3 over a virtual file system with path, URL and host-function bases, system prefixes, "./", "../", absolute and system references, '
        'includes in functions, conditionals and loops, guarded self-includes, missing files, throwing fetch functions and broken files; fetches, logs, globals, result and errors '
        'compared with a reference interpreter of the tree; and trees on disk run through the command line; non-trivial: at least one include')

#
# Reference resolution
#

R_URL = re.compile(r'([a-z]+:)(//[^/]*)?(.*)', re.S)


def clean(path, rooted):
    out = []
    for part in path.split('/'):
        if part in ('', '.'):
            continue
        if part == '..' and (rooted or (out and out[-1] != '..')):
            if out:
                out.pop()
        else:
            out.append(part)
    return '/'.join(out)


def normal(location):
    """A location without "." and ".." parts"""
    match = R_URL.fullmatch(location)
    if match is not None:
        return f'{match.group(1)}{match.group(2) or ""}/{clean(match.group(3), True)}'
    if location.startswith('/'):
        return '/' + clean(location, True)
    return clean(location, False)


def resolve(base, url):
    """The location of a reference in the file at base"""
    if R_URL.fullmatch(url) or url.startswith('/'):
        return normal(url)
    return normal(base.rpartition('/')[0] + '/' + url if '/' in base else url)


#
# The reference interpreter of file trees
#
# Items: ['out', tag] ['set', name, value] ['include', url, system, quote] ['return', value] ['func', name, items] ['call', name]
#        ['if', flag, items] ['less', limit, items] ['loop', id, count, items] ['broken', line]
#

def render(items, indent=0, out=None):
    out = [] if out is None else out
    pad = '    ' * indent
    for item in items:
        kind = item[0]
        if kind == 'out':
            out.append(f"{pad}out('{item[1]}', x, y)")
        elif kind == 'set':
            out.append(f'{pad}{item[1]} = {item[2]}')
        elif kind == 'include':
            out.append(pad + (f'include <{item[1]}>' if item[2] else f'include {item[3]}{item[1]}{item[3]}'))
        elif kind == 'return':
            out.append(f'{pad}return {item[1]}')
        elif kind == 'func':
            out.append(f'{pad}function {item[1]}(x):')
            render(item[2], indent + 1, out)
            out.append(pad + 'endfunction')
        elif kind == 'call':
            out.append(f'{pad}r = {item[1]}({item[2]})')
        elif kind == 'if':
            out.append(f'{pad}if {"true" if item[1] else "false"}:')
            render(item[2], indent + 1, out)
            out.append(pad + 'endif')
        elif kind == 'less':
            out.append(f'{pad}if systemGlobalGet("n", 0) < {item[1]}:')
            out.append(f'{pad}    systemGlobalSet("n", systemGlobalGet("n", 0) + 1)')
            render(item[2], indent + 1, out)
            out.append(pad + 'endif')
        elif kind == 'loop':
            var = f'i{item[1]}'
            out.append(f'{pad}{var} = 0')
            out.append(f'{pad}while {var} < {item[2]}:')
            render(item[3], indent + 1, out)
            out.append(f'{pad}    {var} = {var} + 1')
            out.append(pad + 'endwhile')
        elif kind == 'broken':
            out.append(item[1])
    return out


class Return(Exception):
    pass


class Missing(Exception):
    pass


class Broken(Exception):
    pass


class TooLong(Exception):
    pass


def is_broken(items):
    return any(item[0] == 'broken' or (isinstance(item[-1], list) and is_broken(item[-1])) for item in items)


class TreeRun:
    def __init__(self, case):
        self.case = case
        self.log = []
        self.globals = {'x': 0, 'y': 0}
        self.functions = {}

    def first(self, url):
        """Resolution of a reference in the root script"""
        base = self.case['base']
        if base is None:
            return normal(url)
        if base == 'host':
            return normal('http://custom/h/' + url.lstrip('/'))
        return resolve(base, url)

    def include(self, item, base):
        url, system = item[1], item[2]
        prefix = self.case['prefix']
        if system and prefix is not None:
            where = resolve(prefix, url)
        elif base is None:
            where = self.first(url)
        else:
            where = resolve(base, url)
        self.log.append(['fetch', where])
        if len(self.log) > 150:
            raise TooLong()
        if self.case.get('nofetch') or where not in self.case['files']:
            raise Missing(where)
        items = self.case['files'][where]
        if is_broken(items):
            raise Broken(where)
        try:
            self.block(items, where, self.globals)
        except Return:
            pass

    def block(self, items, base, scope):
        for item in items:
            kind = item[0]
            if kind == 'out':
                self.log.append(['out', item[1], scope.get('x', self.globals.get('x')), scope.get('y', self.globals.get('y'))])
            elif kind == 'set':
                scope[item[1]] = item[2]
            elif kind == 'include':
                self.include(item, base)
            elif kind == 'return':
                raise Return(item[1])
            elif kind == 'func':
                self.functions[item[1]] = (item[2], base)
            elif kind == 'call':
                found = self.functions.get(item[1])
                if found is None:
                    raise TooLong()  # a call of an undefined function: another property
                local = {'x': item[2]}
                value = None
                try:
                    self.block(found[0], found[1], local)
                except Return as ret:
                    value = ret.args[0]
                scope['r'] = value
            elif kind == 'if':
                if item[1]:
                    self.block(item[2], base, scope)
            elif kind == 'less':
                if self.globals.get('n', 0) < item[1]:
                    self.globals['n'] = self.globals.get('n', 0) + 1
                    self.block(item[2], base, scope)
            elif kind == 'loop':
                scope[f'i{item[1]}'] = 0
                while scope[f'i{item[1]}'] < item[2]:
                    self.block(item[3], base, scope)
                    scope[f'i{item[1]}'] += 1

    def run(self):
        try:
            self.block(self.case['root'], None, self.globals)
            return ['return', None]
        except Return as ret:
            return ['return', ret.args[0]]
        except Missing as exc:
            return ['missing', exc.args[0]]
        except Broken as exc:
            return ['broken', exc.args[0]]


def check_tree(case):
    from functools import partial  # pylint: disable=import-outside-toplevel
    from bare_script import BareScriptParserError, BareScriptRuntimeError, execute_script, parse_script, url_file_relative  # pylint: disable=import-outside-toplevel
    spec = TreeRun(case)
    try:
        want = spec.run()
    except (TooLong, RecursionError) as exc:
        raise Skip() from exc
    log = []
    raw = []

    def fetch(request):
        raw.append(request['url'])
        where = normal(request['url'])
        log.append(['fetch', where])
        if list(request) != ['url'] or where not in case['files']:
            if case['missing'] == 'raise':
                raise OSError('no such file')
            if case['missing'] == 'key':
                raise KeyError(where)
            return None
        return '\n'.join(render(case['files'][where]))

    def out(args, _options):
        log.append(['out', *args])

    def host_url(url):
        return 'http://custom/h/' + url.lstrip('/')

    globals_ = {'x': 0, 'y': 0, 'out': out}
    options = {'globals': globals_, 'logFn': lambda text: None, 'debug': case.get('debug', False)}
    if not case.get('nofetch'):
        options['fetchFn'] = fetch
    if case['base'] == 'host':
        options['urlFn'] = host_url
    elif case['base'] is not None:
        options['urlFn'] = partial(url_file_relative, case['base'])
    if case['prefix'] is not None:
        options['systemPrefix'] = case['prefix']
    before = {key: options.get(key) for key in ('urlFn', 'systemPrefix', 'fetchFn')}
    error = None
    try:
        got = ['return', execute_script(parse_script('\n'.join(render(case['root']))), options)]
    except BareScriptParserError as exc:
        got, error = ['broken'], exc
    except BareScriptRuntimeError as exc:
        got, error = ['missing'], exc
    shown = f'root {render(case["root"])!r} base {case["base"]!r} files { {k: render(v) for k, v in case["files"].items()}!r}'
    if case.get('nofetch'):
        spec_log = [entry for entry in spec.log if entry[0] != 'fetch']
    else:
        spec_log = spec.log
    if log != spec_log:
        at = next((ix for ix, (g, w) in enumerate(zip(log, spec_log)) if g != w), min(len(log), len(spec_log)))
        return f'events differ: at {at}: got {log[at:at + 3]!r}, expected {spec_log[at:at + 3]!r}; {shown}'
    if got[0] != want[0] or (got[0] == 'return' and got[1] != want[1]):
        return f'outcome differs: got {got!r} ({error}), expected {want!r}; {shown}'
    if error is not None:
        where = want[1] if case.get('nofetch') else raw[-1]
        if where not in str(error) and want[1] not in [normal(part) for part in re.findall('"([^"]*)"', str(error))]:
            return f'location not named: {str(error)!r} does not name {where!r}; {shown}'
    got_globals = {key: globals_.get(key) for key in spec.globals}
    if got_globals != spec.globals:
        return f'globals differ: got {got_globals!r}, expected {spec.globals!r}; {shown}'
    leaked = [key for key in globals_ if re.fullmatch(r'[xynrz]|i\d+|r', key) and key not in spec.globals]
    if leaked:
        return f'globals differ: {leaked!r} leaked; {shown}'
    after = {key: options.get(key) for key in before}
    if any(after[key] is not before[key] for key in before):
        return f'options changed: {before!r} became {after!r}; {shown}'
    return None


def check_resolve(case):
    from bare_script import url_file_relative  # pylint: disable=import-outside-toplevel
    got = url_file_relative(case['base'], case['url'])
    want = resolve(case['base'], case['url'])
    if not isinstance(got, str) or normal(got) != want:
        return f'location differs: {case["url"]!r} in {case["base"]!r} is {got!r}, not {want!r}'
    if (R_URL.fullmatch(case['url']) or case['url'].startswith('/')) and got != case['url']:
        return f'absolute reference changed: {case["url"]!r} in {case["base"]!r} is {got!r}'
    return None


def check_cli(case):
    """The tree on disk, run by the command line"""
    from bare_script.bare import main  # pylint: disable=import-outside-toplevel
    scratch = tempfile.mkdtemp(prefix='hv-c17-')
    cwd = os.getcwd()
    try:
        for where, items in {**case['files'], case['base']: case['root']}.items():
            path = os.path.join(scratch, where)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            text = '\n'.join(render(items)).replace('{scratch}', scratch)
            with open(path, 'w', encoding='utf-8') as fh:
                fh.write("function out(tag, xx, yy):\n    systemLog(tag + ' ' + xx + ' ' + yy)\nendfunction\n" + text if where == case['base'] else text)
        os.makedirs(os.path.join(scratch, 'work/sub'), exist_ok=True)
        os.chdir(os.path.join(scratch, case['cwd']))
        arg = case['base'] if case['cwd'] == '.' else os.path.join(scratch, case['base']) if case['cwd'] == 'work/sub' else '../' + case['base']
        stdout = io.StringIO()
        code = None
        with contextlib.redirect_stdout(stdout):
            try:
                main(['-v', 'x', '0', '-v', 'y', '0', arg])
            except SystemExit as exc:
                code = exc.code
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch)
    spec_case = {**case, 'files': {('/S/' + k): v for k, v in subst(case['files'], '/S').items()}, 'root': subst(case['root'], '/S'), 'base': '/S/' + case['base'], 'prefix': None}
    spec = TreeRun(spec_case)
    try:
        want = spec.run()
    except (TooLong, RecursionError) as exc:
        raise Skip() from exc
    lines = [f'{entry[1]} {entry[2]} {entry[3]}' for entry in spec.log if entry[0] == 'out']
    got = stdout.getvalue().split('\n')[:-1]
    shown = f'cwd {case["cwd"]!r} root {render(case["root"])!r} files { {k: render(v) for k, v in case["files"].items()}!r}'
    if want[0] == 'return':
        status = 0 if want[1] is None or want[1] == 0 else int(want[1]) if 0 <= want[1] <= 255 else 1
        if got != lines or code != status:
            return f'output differs: got {got!r} status {code}, expected {lines!r} status {status}; {shown}'
    else:
        tail = '\n'.join(got[len(lines):])
        name = want[1].rpartition('/')[2]
        if got[:len(lines)] != lines or code != 1 or name not in tail:
            return f'output differs: got {got!r} status {code}, expected {lines!r} and an error naming {name!r}; {shown}'
    return None


def subst(obj, scratch):
    if isinstance(obj, str):
        return obj.replace('{scratch}', scratch)
    if isinstance(obj, list):
        return [subst(item, scratch) for item in obj]
    if isinstance(obj, dict):
        return {key: subst(item, scratch) for key, item in obj.items()}
    return obj


def check_system(case):
    """The command line's system includes are the shipped files"""
    from bare_script.bare import main  # pylint: disable=import-outside-toplevel
    import bare_script  # pylint: disable=import-outside-toplevel
    folder = os.path.join(os.path.dirname(bare_script.__file__), 'include')
    name = case['name']
    stdout = io.StringIO()
    code = None
    with contextlib.redirect_stdout(stdout):
        try:
            main(['-c', f"include <{name}>\nsystemLog('in')\nreturn 7"])
        except SystemExit as exc:
            code = exc.code
    if os.path.exists(os.path.join(folder, name)):
        if code != 7 or stdout.getvalue() != 'in\n':
            return f'system include failed: <{name}>: {stdout.getvalue()!r} status {code}'
    elif code != 1 or name not in stdout.getvalue():
        return f'missing system include: <{name}>: {stdout.getvalue()!r} status {code}'
    return None


CHECKS = {'tree': check_tree, 'resolve': check_resolve, 'cli': check_cli, 'system': check_system}


def nontrivial(kind, case):
    return kind not in ('tree', 'cli') or 'include' in str(case['root'])


def shrink(kind, case):
    if kind not in ('tree', 'cli'):
        return
    for smaller in shrink_items(case['root']):
        yield {**case, 'root': smaller}
    for where, items in case['files'].items():
        if len(case['files']) > 1:
            yield {**case, 'files': {k: v for k, v in case['files'].items() if k != where}}
        for smaller in shrink_items(items):
            yield {**case, 'files': {**case['files'], where: smaller}}


def shrink_items(items):
    for ix, item in enumerate(items):
        yield items[:ix] + items[ix + 1:]
        if isinstance(item[-1], list):
            for smaller in shrink_items(item[-1]):
                yield items[:ix] + [item[:-1] + [smaller]] + items[ix + 1:]


#
# Generators
#

RELATIVE = ['a.bare', 'b.bare', 'sub/a.bare', 'sub/c.bare', 'sub/deep/d.bare', '../a.bare', '../up.bare', './b.bare', '../../top.bare', '../sub/a.bare', 'sub/../b.bare', 'x y.bare', 'é.bare', 'lib.v2/a.bare',
            'noext', '../sib/e.bare', './sub/./a.bare', 'a:b/c.bare'[1:], '.hidden.bare', 'a.bare?v=1']
ABSOLUTE = ['/abs/a.bare', '/abs/s/b.bare', '/q.bare', '/abs/../q.bare']
URLS = ['http://h/u.bare', 'https://cdn.net/p/q/v.bare', 'https://cdn.net/p/w.bare', 'file:///abs/a.bare', 'http://localhost:8080/t/a.bare']
PLAIN_URLS = ['data:text', 'mailto:x', 'c:x.bare', 'urn:a:b.bare', 'x:', 'ab:../c.bare']
SYSTEM = ['sys.bare', 'lib/s2.bare', '../out.bare', 'a.bare', '/abs/a.bare', 'https://cdn.net/p/w.bare']
BASES = ['/virt/proj/main.bare', 'proj/main.bare', 'main.bare', './main.bare', '../rel/main.bare', 'http://host/proj/main.bare', 'https://h.x/a/b/c/main.bare', 'http://host/main.bare', '/main.bare', None, 'host']
PREFIXES = [':bare-include:/', 'https://sys.org/inc/', '/usr/lib/bare/', 'sysdir/', None, ':bare-include:/', 'http://sys.org/inc/v1.bare']
BROKEN = ['x =', 'if true:', 'endwhile', 'y = 1 +', 'function q():', "out('a"]


class Gen:
    def __init__(self, rng, base, prefix, relative=None, absolute=None, limits=(4, 3)):
        self.rng = rng
        self.case = {'files': {}, 'base': base, 'prefix': prefix}
        self.tags = 0
        self.run = TreeRun(self.case)
        self.relative = relative or RELATIVE
        self.absolute = absolute
        self.max_depth, self.fan = limits
        self.functions = []
        self.bad = rng.random() < 0.3

    def ref(self, where):
        """(item, location) of an include in the file at where"""
        rng = self.rng
        roll = rng.random()
        system = False
        if self.absolute is not None:
            url = rng.choice(self.relative) if roll < 0.85 else rng.choice(self.absolute)
        elif roll < 0.65:
            url = rng.choice(self.relative)
        elif roll < 0.75:
            url = rng.choice(ABSOLUTE)
        elif roll < 0.85:
            url = rng.choice(URLS)
        else:
            url, system = rng.choice(SYSTEM), True
        prefix = self.case['prefix']
        if system and prefix is not None:
            location = resolve(prefix, url)
        elif where is None:
            location = self.run.first(url)
        else:
            location = resolve(where, url)
        return ['include', url, system, "'"], location

    def items(self, where, depth, in_func=False):
        rng = self.rng
        res = []
        fan = rng.randrange(0, self.fan + 1) if depth > 0 else rng.randrange(1, self.fan + 1)
        slots = ['inc'] * (fan if depth < self.max_depth else 0) + ['out'] * rng.randrange(1, 3) + ['set'] * rng.randrange(0, 2) + (['func'] if rng.random() < 0.25 and not in_func else []) + (
            ['call'] if self.functions and rng.random() < 0.5 else [])
        rng.shuffle(slots)
        for slot in slots:
            if slot == 'inc':
                item, location = self.ref(where)
                block = [item]
                roll = rng.random()
                if location not in self.case['files']:
                    if not (self.bad and rng.random() < 0.1):
                        self.case['files'][location] = []
                        self.case['files'][location] = self.items(location, depth + 1)
                elif roll < 0.6:
                    # An already known file (maybe an ancestor): guarded
                    block = [['less', rng.randrange(1, 6), block]]
                if rng.random() < 0.15:
                    block = [['if', rng.random() < 0.7, block]]
                elif rng.random() < 0.08:
                    self.tags += 1
                    block = [['loop', self.tags, rng.randrange(0, 3), block]]
                res.extend(block)
                if rng.random() < 0.3:
                    res.append(self.out())
            elif slot == 'out':
                res.append(self.out())
            elif slot == 'set':
                self.tags += 1
                res.append(['set', rng.choice('xyz'), self.tags])
            elif slot == 'func':
                name = f'f{rng.randrange(4)}'
                body = self.items(where, max(depth, self.max_depth - 2) if depth < self.max_depth else depth, True)
                self.functions.append(name)
                res.append(['func', name, body])
            elif slot == 'call':
                res.append(['call', rng.choice(self.functions), rng.randrange(100, 110)])
        if rng.random() < 0.15:
            res.insert(rng.randrange(len(res) + 1), ['return', rng.randrange(1, 9)])
        if self.bad and rng.random() < 0.06 and where is not None:
            res.insert(rng.randrange(len(res) + 1), ['broken', rng.choice(BROKEN)])
        return res

    def out(self):
        self.tags += 1
        return ['out', f't{self.tags}']


def gen_trees(rng, params):
    for _ in range(params):
        gen = Gen(rng, rng.choice(BASES), rng.choice(PREFIXES))
        case = gen.case
        case['root'] = gen.items(None, 0)
        if is_broken(case['root']):
            continue
        case['missing'] = rng.choice(['none', 'raise', 'key'])
        case['debug'] = rng.random() < 0.3
        if rng.random() < 0.02:
            case['nofetch'] = True
        yield 'tree', case


def gen_chains(_rng, _params):
    """Every chain of references to depth 3 from every base: the resolution returns to the includer's base after each include"""
    refs = [('a.bare', False), ('sub/b.bare', False), ('../c.bare', False), ('/abs/s/d.bare', False), ('https://cdn.net/p/e.bare', False), ('sys.bare', True)]
    for base in BASES:
        for prefix in (':bare-include:/', None):
            for first in refs:
                for second in refs:
                    for third in refs:
                        case = {'files': {}, 'base': base, 'prefix': prefix, 'missing': 'none'}
                        run = TreeRun(case)
                        root = [['include', *first, "'"], ['include', 'after0.bare', False, "'"], ['out', 'end']]
                        where = None
                        level = 0
                        for ref, nxt in ((first, second), (second, third), (third, None)):
                            run.log = []
                            try:
                                run.include(['include', *ref, "'"], where)
                            except Missing as exc:
                                target = exc.args[0]
                            except TooLong:
                                break
                            else:
                                break  # the same file again
                            level += 1
                            case['files'][target] = [['out', f'in{level}']] + ([['include', *nxt, "'"]] if nxt else []) + [['include', f'after{level}.bare', False, "'"], ['out', f'done{level}']]
                            where = target
                        else:
                            case['root'] = root
                            # The files after each level
                            spec = None
                            for _ in range(6):
                                spec = TreeRun(case)
                                try:
                                    outcome = spec.run()
                                except TooLong:
                                    outcome = ['long']
                                if outcome[0] != 'missing':
                                    break
                                case['files'][outcome[1]] = [['out', 'x:' + outcome[1].rpartition('/')[2]]]
                            yield 'tree', case


def gen_resolve(rng, params):
    bases = [base for base in BASES if base not in (None, 'host')] + PREFIXES[:4]
    for base in bases:
        for url in RELATIVE + ABSOLUTE[:3] + URLS + PLAIN_URLS + SYSTEM:
            yield 'resolve', {'base': base, 'url': url}
    parts = ['a', 'b.c', '..', '.', 'x y', '%41', '#h', 'é']
    for _ in range(params):
        url = '/'.join(rng.choice(parts) for _ in range(rng.randrange(1, 5)))
        if url.endswith('.') or R_URL.fullmatch(url):
            url += '/z.bare'
        yield 'resolve', {'base': rng.choice(bases), 'url': url}


CLI_RELATIVE = ['a.bare', 'b.bare', 'sub/a.bare', 'sub/deep/d.bare', '../a.bare', './b.bare', '../proj/sub/c.bare', 'x y.bare', '../lib/e.bare']


def gen_cli(rng, params):
    for name in ('diff.bare', 'unittest.bare', 'missing.bare', 'sub/missing.bare', 'args.bare', 'forms.bare'):
        yield 'system', {'name': name}
    for _ in range(params):
        gen = Gen(rng, '/{scratch}/t/proj/main.bare', None, CLI_RELATIVE, ['{scratch}/t/abs/a.bare', '{scratch}/t/lib/e.bare'], (3, 2))
        gen.case['base'] = '/S/t/proj/main.bare'
        gen.absolute = ['/S/t/abs/a.bare', '/S/t/lib/e.bare']
        root = gen.items(None, 0)
        if is_broken(root):
            continue
        files = {}
        outside = False
        for where, items in gen.case['files'].items():
            if not where.startswith('/S/t/'):
                outside = True
            files[where[3:]] = unsubst(items)
        if outside:
            continue
        case = {'files': files, 'root': unsubst(root), 'base': 't/proj/main.bare', 'cwd': rng.choice(['.', 'work', 'work/sub']), 'prefix': None}
        yield 'cli', case


def unsubst(obj):
    if isinstance(obj, str):
        return obj.replace('/S/', '{scratch}/')
    if isinstance(obj, list):
        return [unsubst(item) for item in obj]
    return obj


def tasks(tier):
    quick = tier == 'quick'
    res = [(f'trees-{p}', gen_trees, 700 if quick else 20000) for p in range(8)]
    res += [('chains', gen_chains, None), ('resolve', gen_resolve, 2000 if quick else 50000), ('cli', gen_cli, 60 if quick else 2500)]
    return res
