"""The deductive layer of a check: obligations generated from the current source of /repo, and what became of them"""

import importlib
import multiprocessing
import os
import sys
import time
import traceback

from hv import core

# The obligation modules, in the order of their dependencies
LOAD_ERRORS = {}
MODULES = ('values', 'evalx', 'execx', 'libx', 'twins', 'datex', 'extremes', 'diffx', 'parsex', 'exprx', 'datax', 'textx', 'lintx', 'urlx', 'grammarx')

ASSUMED = {
    'host': 'Python itself (evaluation order, exceptions, the int/float/str/list/dict/datetime built-ins) behaves as modelled in pyvc/engine.py and pyvc/models.py; '
            'host functions without a rule are uninterpreted functions of their arguments',
    'float': 'floats are reals: NaN and infinities are outside the obligations, float arithmetic is uninterpreted (exact on integers up to 2^53), an int converts to '
             'float exactly',
    'solver': 'z3 is sound'
}


def load():
    from pyvc import dsl, engine
    engine.setup(core.SRC)
    for name in MODULES:
        if name not in LOAD_ERRORS:
            count = len(dsl.REGISTRY)
            try:
                importlib.import_module(f'pyvc.obs.{name}')
            except Exception:  # pylint: disable=broad-exception-caught
                # The tree does not have what the contracts are about
                LOAD_ERRORS[name] = traceback.format_exc()[-1500:]
                del dsl.REGISTRY[count:]
    return dsl.REGISTRY


def run_one(name):
    """Worker: one obligation"""
    from pyvc import engine
    ob = next(ob for ob in load() if ob.name == name)
    start = time.time()
    try:
        stats, undecided = engine.explore(ob.fn, ob.limit_s, ob.max_paths, ob.prove_ms)
    except Exception:  # pylint: disable=broad-exception-caught
        return {'name': name, 'error': traceback.format_exc()[-1500:], 'wall': time.time() - start}
    return {'name': name, 'error': None, 'undecided': undecided, 'vcs': stats.vcs, 'proved': stats.proved, 'refuted': stats.refuted, 'unknown': stats.unknown,
            'paths': stats.paths, 'live': stats.live, 'solver_s': stats.solver_s, 'functions': sorted(stats.functions), 'wall': time.time() - start}


def child(conn, name):
    conn.send(run_one(name))
    conn.close()


def run(prop, tier, seed):
    result = {'obligations': 0, 'discharged': 0, 'refuted': [], 'undecided': [], 'errors': [], 'functions': [], 'back_ends': {}, 'solver_s': 0.0, 'names': [],
              'trusted': [], 'assumptions': [], 'vacuity': 0, 'witnesses': [], 'vcs': 0, 'paths': 0}
    obs = [ob for ob in load() if prop in ob.props and (ob.tier == 'quick' or tier == 'thorough')]
    for name, error in LOAD_ERRORS.items():
        result['obligations'] += 1
        reason = f'the contracts do not fit the tree: {error}'
        result['names'].append({'name': f'module {name}', 'functions': [], 'status': 'undecided', 'reason': reason})
        result['undecided'].append({'name': f'module {name}', 'reason': reason})
    if not obs:
        return result
    limit = 240 if tier == 'quick' else 600
    # The longest first
    outcomes = pool([ob.name for ob in sorted(obs, key=lambda ob: -ob.limit_s)], limit)
    functions = set()
    for ob in obs:
        out = outcomes[ob.name]
        result['obligations'] += 1
        functions.update(ob.functions)
        entry = {'name': ob.name, 'functions': ob.functions}
        if out.get('error'):
            entry.update({'status': 'undecided', 'reason': f'engine: {out["error"]}'})
            result['undecided'].append({'name': ob.name, 'reason': entry['reason']})
        else:
            result['solver_s'] += out['solver_s']
            result['vcs'] += out['vcs']
            result['paths'] += out['paths']
            functions.update(out['functions'])
            entry.update({'vcs': out['vcs'], 'paths': out['paths'], 'live_paths': out['live'], 'wall_s': round(out['wall'], 2)})
            if out['refuted']:
                entry['status'] = 'refuted'
                failed = out['refuted'][0]
                result['refuted'].append({'name': ob.name, 'reason': f'{failed["what"]}; case {" ".join(failed["path"][-12:])}; counterexample {failed["model"]}',
                                          'counterexample': failed, 'functions': ob.functions})
            elif out['undecided'] or out['unknown']:
                reason = out['undecided'] or '; '.join(out['unknown'][:3])
                entry.update({'status': 'undecided', 'reason': reason})
                result['undecided'].append({'name': ob.name, 'reason': reason})
            elif out['vcs'] == 0 or out['live'] == 0:
                entry.update({'status': 'undecided', 'reason': 'vacuous: no consistent path makes a claim'})
                result['undecided'].append({'name': ob.name, 'reason': entry['reason']})
            else:
                entry['status'] = 'discharged'
                result['discharged'] += 1
                result['vacuity'] += out['live']
        result['names'].append(entry)
    result['functions'] = sorted(functions)
    result['back_ends'] = {'pyvc + z3': result['discharged']}
    result['trusted'] = sorted(ASSUMED.values())
    result['assumptions'] = sorted(ASSUMED.values())
    return result


def pool(names, limit):
    """Run the obligations in parallel, each in its own process, with a wall limit"""
    ctx = multiprocessing.get_context('fork')
    load()
    todo = list(names)
    running = {}
    outcomes = {}
    workers = int(os.environ.get('HV_WORKERS') or min(8, os.cpu_count() or 1))
    start = time.time()
    while todo or running:
        while todo and len(running) < workers:
            name = todo.pop(0)
            parent, conn = ctx.Pipe(False)
            proc = ctx.Process(target=child, args=(conn, name))
            proc.start()
            conn.close()
            running[parent] = (name, proc, time.time())
        for conn in multiprocessing.connection.wait(list(running), timeout=0.5):
            name, proc, _ = running.pop(conn)
            try:
                outcomes[name] = conn.recv()
            except EOFError:
                outcomes[name] = {'name': name, 'error': 'the worker died'}
            proc.join()
        if time.time() - start > limit:
            for conn, (name, proc, _) in running.items():
                proc.kill()
                outcomes[name] = {'name': name, 'error': 'time limit of the layer'}
            for name in todo:
                outcomes[name] = {'name': name, 'error': 'time limit of the layer'}
            break
    return outcomes


if __name__ == '__main__':
    # One obligation, in this process: python3-vt -m pyvc.layer NAME
    core.setup_path()
    for ob in load():
        if len(sys.argv) < 2 or ob.name.startswith(sys.argv[1]):
            out = run_one(ob.name)
            status = 'ERROR' if out['error'] else ('REFUTED' if out['refuted'] else ('undecided' if out['undecided'] or out['unknown'] else 'ok'))
            print(f'{status:10} {ob.name} {out["wall"]:.1f}s', '' if out['error'] else f'vcs {out["vcs"]} paths {out["paths"]} live {out["live"]}')
            if out['error'] or status != 'ok':
                print(out['error'] or out['undecided'] or out['unknown'][:3] or '')
            if not out['error']:
                for failed in out['refuted'][:2]:
                    print('   ', failed)
