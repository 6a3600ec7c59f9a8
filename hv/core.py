"""Shared machinery of the contract-replay harness: task pool, cases, violations, known findings, evidence.

A property module (hv/props/cNN.py) provides

    CHECKS = {kind: check}          check(case) -> None (contract satisfied) or a message (contract violated)
    tasks(tier)                     list of (task name, generator function, params)
                                    generator(rng, params) yields (kind, case) pairs
    RULE, LEVEL...                  texts for the evidence

Cases are JSON-able (see enc/dec), so that every violation can be written to a replay file and run again with
    python3-vt check.py CNN --replay FILE
"""

import datetime
import hashlib
import json
import math
import multiprocessing
import multiprocessing.connection
import os
import random
import re
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HV_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


def setup_path():
    """Import bare_script from the repository's working tree (its dependency schema_markdown from the venv that has it)"""
    sys.dont_write_bytecode = True
    for path in ('/opt/venv/lib/python3.12/site-packages',):
        if os.path.isdir(path) and path not in sys.path:
            sys.path.append(path)
    if SRC in sys.path:
        sys.path.remove(SRC)
    sys.path.insert(0, SRC)
    sys.setrecursionlimit(6000)
    import bare_script  # pylint: disable=import-outside-toplevel
    assert os.path.realpath(bare_script.__file__).startswith(os.path.realpath(SRC)), bare_script.__file__


#
# Case encoding
#

_RE_TYPE = type(re.compile(''))


def enc(value):
    if value is None or isinstance(value, (bool, str)):
        return value
    if isinstance(value, int):
        return value if abs(value) < 2 ** 53 else {'$i': str(value)}
    if isinstance(value, float):
        return {'$f': repr(value)}
    if isinstance(value, datetime.datetime):
        if value.tzinfo is not None:
            return {'$dtz': value.isoformat()}
        return {'$dt': value.isoformat()}
    if isinstance(value, datetime.date):
        return {'$d': value.isoformat()}
    if isinstance(value, list):
        return [enc(item) for item in value]
    if isinstance(value, tuple):
        return {'$t': [enc(item) for item in value]}
    if isinstance(value, dict):
        return {'$o': [[key, enc(item)] for key, item in value.items()]}
    if isinstance(value, _RE_TYPE):
        return {'$re': value.pattern}
    if callable(value):
        return {'$fn': getattr(value, 'hv_name', getattr(value, '__name__', 'fn'))}
    return {'$other': repr(value)}


class HvFn:
    """A host function value, identified by name"""
    REGISTRY = {}

    def __init__(self, name, fn):
        self.hv_name = name
        self.fn = fn
        HvFn.REGISTRY[name] = self

    def __call__(self, args, options):
        return self.fn(args, options)

    def __repr__(self):
        return f'<{self.hv_name}>'

    def __deepcopy__(self, memo):
        return self


FN_A = HvFn('hvFnA', lambda args, options: args[0] if args else None)
FN_B = HvFn('hvFnB', lambda args, options: len(args))


def dec(obj):
    if obj is None or isinstance(obj, (bool, str, int, float)):
        return obj
    if isinstance(obj, list):
        return [dec(item) for item in obj]
    key, val = next(iter(obj.items()))
    if key == '$i':
        return int(val)
    if key == '$f':
        return float(val)
    if key in ('$dt', '$dtz'):
        return datetime.datetime.fromisoformat(val)
    if key == '$d':
        return datetime.date.fromisoformat(val)
    if key == '$t':
        return tuple(dec(item) for item in val)
    if key == '$o':
        return {k: dec(v) for k, v in val}
    if key == '$re':
        return re.compile(val)
    if key == '$fn':
        return HvFn.REGISTRY[val]
    raise ValueError(f'cannot decode {obj!r}')


def same(a, b):
    """Same BareScript value: number type agnostic, NaN equal to NaN, functions/regexes by identity"""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or (a != a and b != b)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if type(a) is not type(b):
        return False
    if a is b:
        return True
    if callable(a):
        return False
    return a == b


#
# Timeouts
#

class CaseTimeout(BaseException):
    pass


def _on_alarm(_sig, _frame):
    raise CaseTimeout()


class time_limit:
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *_exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


#
# Running one task
#

CASE_TIMEOUT = 20.0
MAX_VIOLATIONS_PER_TASK = 3


class Skip(Exception):
    """Raised by a check for a case outside the property's quantifier"""


def run_check(check, case, timeout=CASE_TIMEOUT):
    """Returns None if the case satisfies the contract, otherwise the violation message"""
    try:
        with time_limit(timeout):
            return check(case)
    except CaseTimeout:
        return f'no answer within {timeout} s'
    except Skip:
        raise
    except Exception as exc:  # pylint: disable=broad-exception-caught
        tb = traceback.extract_tb(exc.__traceback__)
        where = '; '.join(f'{os.path.basename(f.filename)}:{f.lineno} {f.name}' for f in tb[-4:])
        return f'unexpected {type(exc).__name__}: {exc} [{where}]'


def _run_task(job):
    prop, seed, ix_task, tier, deadline = job
    start = time.time()
    mod = load_prop(prop)
    task = mod.tasks(tier)[ix_task]
    name, gen, params = task
    rng = random.Random(f'{seed}:{prop}:{name}')
    result = {'task': name, 'evaluations': 0, 'skipped': 0, 'nontrivial': 0, 'digests': set(), 'samples': [], 'violations': [], 'stats': {}}
    nontrivial = getattr(mod, 'nontrivial', None)
    try:
        for kind, case in gen(rng, params):
            if time.time() > deadline:
                result['truncated'] = True
                break
            try:
                message = run_check(mod.CHECKS[kind], case)
            except Skip:
                result['skipped'] += 1
                continue
            result['evaluations'] += 1
            if nontrivial is None or nontrivial(kind, case):
                text = kind + json.dumps(case, sort_keys=True, default=repr)
                result['digests'].add(hashlib.blake2b(text.encode('utf-8', 'surrogatepass'), digest_size=8).digest())
                if len(result['samples']) < 1 and rng.random() < 0.05:
                    result['samples'].append({'kind': kind, 'case': case})
            if message is not None:
                if message.startswith('no answer within'):
                    # Confirm: not just a busy machine
                    message = run_check(mod.CHECKS[kind], case, 60)
                    if message is None:
                        continue
                case, message = _shrink(mod, kind, case, message)
                result['violations'].append({'kind': kind, 'case': case, 'message': message})
                if len(result['violations']) >= MAX_VIOLATIONS_PER_TASK:
                    break
    except Exception:  # pylint: disable=broad-exception-caught
        result['error'] = traceback.format_exc()
    result['wall_s'] = time.time() - start
    return result


def _shrink(mod, kind, case, message):
    shrink = getattr(mod, 'shrink', None)
    if shrink is None:
        return case, message
    deadline = time.time() + 10
    progress = True
    while progress and time.time() < deadline:
        progress = False
        for smaller in shrink(kind, case):
            try:
                msg = run_check(mod.CHECKS[kind], smaller, 5)
            except Skip:
                continue
            if msg is not None and msg.split(':')[0] == message.split(':')[0]:
                case, message = smaller, msg
                progress = True
                break
            if time.time() > deadline:
                break
    return case, message


def load_prop(prop):
    import importlib  # pylint: disable=import-outside-toplevel
    return importlib.import_module(f'hv.props.{prop.lower()}')


WORKER_MEMORY = 3 << 30


def _worker(job, conn):
    """A worker process: one task, memory limited (a runaway case becomes a MemoryError, not a dead machine)"""
    try:
        resource.setrlimit(resource.RLIMIT_AS, (WORKER_MEMORY, WORKER_MEMORY))
        result = _run_task(job)
    except BaseException:  # pylint: disable=broad-exception-caught
        result = {'task': str(job[2]), 'evaluations': 0, 'skipped': 0, 'digests': set(), 'samples': [], 'violations': [], 'wall_s': 0,
                  'error': traceback.format_exc()}
    conn.send(result)
    conn.close()


def _run_jobs(jobs, names, procs, hard_deadline):
    """Run the jobs in forked workers - returns (results, names of tasks without a result)"""
    ctx = multiprocessing.get_context('fork')
    todo = list(reversed(jobs))
    running = {}
    results, hung = [], []
    while todo or running:
        while todo and len(running) < procs:
            job = todo.pop()
            recv, send = ctx.Pipe(False)
            proc = ctx.Process(target=_worker, args=(job, send), daemon=True)
            proc.start()
            send.close()
            running[recv] = (job, proc)
        for recv in multiprocessing.connection.wait(list(running), timeout=1.0):
            job, proc = running.pop(recv)
            try:
                results.append(recv.recv())
            except (EOFError, OSError):
                hung.append(names[job[2]] + ' (worker died)')
            recv.close()
            proc.join(5)
        if time.time() > hard_deadline:
            for job, proc in running.values():
                proc.kill()
                hung.append(names[job[2]] + ' (killed at the deadline)')
            hung.extend(names[job[2]] + ' (not started)' for job in todo)
            break
    results.sort(key=lambda result: result['task'])
    return results, hung


def run_tasks(prop, seed, tier, budget, procs=None):
    """Run every task of a property in a process pool - returns the merged result"""
    mod = load_prop(prop)
    tasks = mod.tasks(tier)
    deadline = time.time() + budget
    jobs = [(prop, seed, ix, tier, deadline) for ix in range(len(tasks))]
    procs = procs or min(os.cpu_count() or 4, 8)
    results, hung = _run_jobs(jobs, [task[0] for task in tasks], procs, deadline + 120)
    merged = {'evaluations': 0, 'skipped': 0, 'digests': set(), 'samples': [], 'violations': [], 'errors': [], 'truncated': [], 'tasks': len(tasks), 'hung': hung, 'task_s': {}}
    for result in results:
        merged['evaluations'] += result['evaluations']
        merged['skipped'] += result['skipped']
        merged['digests'] |= result['digests']
        merged['task_s'][result['task']] = round(result['wall_s'], 1)
        if len(merged['samples']) < 4:
            merged['samples'].extend(result['samples'])
        merged['violations'].extend(result['violations'])
        if 'error' in result:
            merged['errors'].append(f'{result["task"]}: {result["error"]}')
        if result.get('truncated'):
            merged['truncated'].append(result['task'])
    return merged


#
# Value pools
#

def is_value(value, depth=0):
    """Is this a BareScript value?"""
    if depth > 50:
        return True
    if value is None or isinstance(value, (bool, int, float, str, datetime.date, _RE_TYPE)):
        return True
    if isinstance(value, list):
        return all(is_value(item, depth + 1) for item in value)
    if isinstance(value, dict):
        return all(is_value(item, depth + 1) for item in value.values())
    return callable(value)


def snapshot(value, depth=0):
    """A structural snapshot (functions/regexes by identity) for before/after comparison"""
    if isinstance(value, list):
        return ('L', id(value), tuple(snapshot(item, depth + 1) for item in value)) if depth < 40 else ('L', id(value))
    if isinstance(value, dict):
        return ('D', id(value), tuple((k, snapshot(v, depth + 1)) for k, v in value.items())) if depth < 40 else ('D', id(value))
    if isinstance(value, (bool, int, float, str)) or value is None:
        return (type(value).__name__, repr(value))
    if isinstance(value, datetime.date):
        return ('dt', value.isoformat())
    return ('X', id(value))


def finite(value):
    return not isinstance(value, float) or math.isfinite(value)
