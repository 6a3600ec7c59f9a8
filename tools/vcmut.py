"""Mutation test of the obligations: vcmut.py MODULE FUNCTION[,FUNCTION] OBLIGATION_PREFIX[;PREFIX] - which mutants of the functions are not refuted?"""

import ast
import copy
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
        ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.And: ast.Or, ast.Or: ast.And}


def mutants(fn):
    """(description, mutated function)"""
    nodes = list(ast.walk(fn))
    for ix, node in enumerate(nodes):
        def edit(change, label, ix=ix, node=node):
            tree = copy.deepcopy(fn)
            target = list(ast.walk(tree))[ix]
            change(target)
            return f'{getattr(node, "lineno", "?")}: {label}', tree
        if isinstance(node, ast.Compare):
            for k, op in enumerate(node.ops):
                if type(op) in SWAP:
                    yield edit(lambda t, k=k, op=op: t.ops.__setitem__(k, SWAP[type(op)]()), f'{ast.unparse(node)} -> {SWAP[type(op)].__name__}')
        if isinstance(node, (ast.BinOp, ast.BoolOp)) and type(node.op) in SWAP:
            yield edit(lambda t, node=node: setattr(t, 'op', SWAP[type(node.op)]()), f'{ast.unparse(node)} -> {SWAP[type(node.op)].__name__}')
        if isinstance(node, ast.BoolOp):
            for k in range(len(node.values)):
                if len(node.values) > 1:
                    yield edit(lambda t, k=k: t.values.pop(k), f'{ast.unparse(node)} drop operand {k}')
        if isinstance(node, ast.Constant) and isinstance(node.value, bool):
            yield edit(lambda t: setattr(t, 'value', not t.value), f'constant {node.value}')
        elif isinstance(node, ast.Constant) and isinstance(node.value, int):
            yield edit(lambda t: setattr(t, 'value', t.value + 1), f'constant {node.value}')
        if isinstance(node, (ast.If, ast.While, ast.IfExp)) and not isinstance(node, ast.While):
            yield edit(lambda t: setattr(t, 'test', ast.UnaryOp(ast.Not(), t.test)), f'negate {ast.unparse(node.test)}')
        if isinstance(node, ast.Call) and len(node.args) >= 2:
            yield edit(lambda t: t.args.__setitem__(slice(0, 2), t.args[1::-1]), f'{ast.unparse(node)[:80]} swap arguments')
        for field in ('body', 'orelse', 'finalbody'):
            stmts = getattr(node, field, None)
            if isinstance(stmts, list):
                for k, stmt in enumerate(stmts):
                    if isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Constant):
                        continue
                    yield edit(lambda t, field=field, k=k: getattr(t, field).__setitem__(k, ast.Pass()), f'{stmt.lineno} delete {ast.unparse(stmt)[:70]!r}')


def run(args):
    repo, module, text, label, prefixes = args
    work = tempfile.mkdtemp(prefix='vcmut.')
    try:
        os.makedirs(f'{work}/src')
        shutil.copytree(f'{repo}/src/bare_script', f'{work}/src/bare_script')
        with open(f'{work}/src/bare_script/{module}.py', 'w', encoding='utf-8') as fh:
            fh.write(text)
        env = {**os.environ, 'HV_REPO': work}
        best = 'ok'
        for prefix in prefixes:
            try:
                out = subprocess.run(['python3-vt', '-m', 'pyvc.layer', prefix], cwd=VERIF, env=env, capture_output=True, text=True, timeout=400, check=False)
            except subprocess.TimeoutExpired:
                best = 'undecided timeout'
                continue
            heads = [line for line in out.stdout.splitlines() if line.startswith(('REFUTED', 'undecided', 'ERROR', 'ok'))]
            if out.returncode and not heads:
                return label, 'CRASH ' + out.stderr.strip().splitlines()[-1]
            if any(line.startswith('REFUTED') for line in heads):
                return label, 'REFUTED ' + next(line for line in heads if line.startswith('REFUTED'))[11:60]
            bad = [line for line in heads if not line.startswith('ok')]
            if bad:
                best = 'undecided ' + bad[0][11:60]
                ix = out.stdout.splitlines().index(bad[0])
                best += ' | ' + out.stdout.splitlines()[ix + 1][:120]
        return label, best
    finally:
        shutil.rmtree(work)


def main():
    repo = os.environ.get('HV_REPO', '/repo')
    module, functions, prefixes = sys.argv[1], sys.argv[2].split(','), sys.argv[3].split(';')
    with open(f'{repo}/src/bare_script/{module}.py', encoding='utf-8') as fh:
        source = fh.read()
    tree = ast.parse(source)
    jobs = []
    for name in functions:
        ix = next(k for k, node in enumerate(tree.body) if isinstance(node, ast.FunctionDef) and node.name == name)
        for label, fn in mutants(tree.body[ix]):
            other = ast.Module(tree.body[:ix] + [fn] + tree.body[ix + 1:], [])
            jobs.append((repo, module, ast.unparse(ast.fix_missing_locations(other)), f'{name} {label}', prefixes))
    counts = {}
    with ThreadPoolExecutor(8) as pool:
        for label, result in pool.map(run, jobs):
            counts[result.split()[0]] = counts.get(result.split()[0], 0) + 1
            if not result.startswith(('REFUTED', 'CRASH')):
                print(f'{result:40} {label}', flush=True)
    print(counts)


main()
