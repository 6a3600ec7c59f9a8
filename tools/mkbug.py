"""Plant bugs: python3 tools/mkbug.py BATCH.py [ID...] - BATCH.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)].

Each one is applied in a scratch copy (/tmp/wt), must keep the tests passing, and its demonstration must fail there and pass on /repo; kept as seeded/<id>/; then the
property's check is run against the scratch copy."""
import json
import os
import runpy
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/wt'
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def run(cmd, cwd, env=None, timeout=300):
    return subprocess.run(cmd, cwd=cwd, env={**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', **(env or {})}, capture_output=True, text=True, timeout=timeout, check=False)


def reset():
    shutil.rmtree(WT, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', WT], check=True)
    subprocess.run(['git', '-C', WT, 'checkout', '-q', '--', '.'], check=True)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    wanted = sys.argv[2:]
    for bug in bugs:
        if wanted and bug['id'] not in wanted:
            continue
        reset()
        problem = None
        for file, old, new in bug['edits']:
            path = os.path.join(WT, 'src/bare_script', file)
            with open(path, encoding='utf-8') as fh:
                text = fh.read()
            if text.count(old) != 1:
                problem = f'{text.count(old)} matches in {file}: {old[:60]!r}'
                break
            with open(path, 'w', encoding='utf-8') as fh:
                fh.write(text.replace(old, new))
        if problem:
            print(bug['id'], 'SKIPPED', problem)
            continue
        tests = run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'src/tests'], WT, {'PYTHONPATH': WT + '/src', 'TZ': 'UTC'})
        if tests.returncode != 0:
            print(bug['id'], 'TESTS FAIL', [line for line in tests.stdout.splitlines() if line.startswith('FAILED')][:3])
            continue
        folder = os.path.join(VERIF, 'seeded', bug['id'])
        os.makedirs(folder, exist_ok=True)
        with open(os.path.join(folder, 'demo.py'), 'w', encoding='utf-8') as fh:
            fh.write(bug['demo'].lstrip('\n'))
        with open(os.path.join(folder, 'demo.sh'), 'w', encoding='utf-8') as fh:
            fh.write(DEMO_SH)
        os.chmod(os.path.join(folder, 'demo.sh'), 0o755)
        good = run(['bash', os.path.join(folder, 'demo.sh')], '/repo')
        bad = run(['bash', os.path.join(folder, 'demo.sh')], WT)
        if good.returncode != 0 or bad.returncode == 0:
            print(bug['id'], 'DEMO: clean', good.returncode, good.stderr[-500:], 'patched', bad.returncode, bad.stderr[-500:])
            shutil.rmtree(folder)
            continue
        diff = run(['git', 'diff'], WT).stdout
        with open(os.path.join(folder, 'patch.diff'), 'w', encoding='utf-8') as fh:
            fh.write(diff)
        with open(os.path.join(folder, 'meta.json'), 'w', encoding='utf-8') as fh:
            json.dump({'property': bug['prop'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, fh, indent=1)
            fh.write('\n')
        if os.environ.get('NOCHECK'):
            print(bug['id'], 'kept')
            continue
        check = run(['python3-vt', 'check.py', bug['prop']], VERIF, {'HV_REPO': WT, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick', 'HV_SCRATCH': '1'}, 1200)
        line = next((line for line in check.stdout.splitlines() if line.startswith('VIOLATION')), None)
        print(bug['id'], bug['prop'], 'CAUGHT' if check.returncode == 1 and line else f'MISSED (exit {check.returncode})', (check.stdout.splitlines() or [''])[0][:160])
        if check.returncode not in (0, 1):
            print(check.stdout[-800:], check.stderr[-800:])
    shutil.rmtree(WT, ignore_errors=True)


if __name__ == '__main__':
    main()
