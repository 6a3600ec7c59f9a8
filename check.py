#!/usr/bin/env python3
"""The check of one property.

    python3-vt check.py C07                 the check (VERIF_SEED, VERIF_TIER from the environment)
    python3-vt check.py C07 --replay FILE   run the case of a replay file again

Exit 0: the property held on everything explored. Exit 1 with a line VIOLATION property=<id> replay=<path>: it is broken. Any other exit: no answer.
"""

import hashlib
import json
import os
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from hv import core, meta  # pylint: disable=wrong-import-position

OUT = os.path.join(core.VERIF, 'out')
KNOWN = os.path.join(core.VERIF, 'known-findings.txt')


def known_findings(prop):
    """The listed findings of the property: [{kind, case, message, what}]"""
    findings = []
    with open(KNOWN, encoding='utf-8') as fh:
        for line in fh:
            if line.startswith('{'):
                finding = json.loads(line)
                if finding['property'] == prop:
                    findings.append(finding)
    return findings


def write_replay(prop, record):
    os.makedirs(os.path.join(OUT, prop), exist_ok=True)
    text = json.dumps({'property': prop, **record}, indent=1, default=repr)
    path = os.path.join(OUT, prop, f'replay-{hashlib.sha256(text.encode("utf-8", "surrogatepass")).hexdigest()[:12]}.json')
    with open(path, 'w', encoding='utf-8', errors='surrogatepass') as fh:
        fh.write(text)
    return path


def replay(prop, path):
    with open(path, encoding='utf-8', errors='surrogatepass') as fh:
        record = json.load(fh)
    if 'case' not in record:
        print(json.dumps(record, indent=1))
        return 0
    mod = core.load_prop(prop)
    message = core.run_check(mod.CHECKS[record['kind']], record['case'], 60)
    print(f'{record["kind"]}: {message or "the contract is satisfied"}')
    if message is not None:
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    return 0


def main():
    prop = sys.argv[1].upper()
    core.setup_path()
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        return replay(prop, sys.argv[3])

    start = time.time()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    tier = os.environ.get('VERIF_TIER') or 'quick'
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    mod = core.load_prop(prop)

    # Listed findings, tried on the current tree
    findings = known_findings(prop)
    known_keys = set()
    for finding in findings:
        known_keys.add((finding['kind'], json.dumps(finding['case'], sort_keys=True)))
        message = core.run_check(mod.CHECKS[finding['kind']], finding['case'], 60)
        if message is not None:
            print(f'KNOWN-FINDING: property={prop} {finding["what"]}')

    # The deductive layer: obligations generated from the current source
    from pyvc import layer  # pylint: disable=import-outside-toplevel
    proof = layer.run(prop, tier, seed)

    # The contract replay harness: the same contracts, evaluated on the running code
    result = core.run_tasks(prop, seed, tier, 300 if tier == 'quick' else 650)
    violations = []
    for violation in result['violations'] + proof.get('witnesses', []):
        if (violation['kind'], json.dumps(violation['case'], sort_keys=True)) not in known_keys:
            violations.append(violation)

    lines = []
    seen = set()
    for violation in violations:
        head = violation['message'].split(':')[0]
        if head in seen:
            continue
        seen.add(head)
        path = write_replay(prop, {**violation, 'failed_obligations': [failed['name'] for failed in proof['refuted']]})
        lines.append(f'VIOLATION property={prop} replay={path}')
        print(f'{violation["kind"]}: {violation["message"][:1500]}')
    if not lines:
        for failed in proof['refuted'][:3]:
            path = write_replay(prop, failed)
            print(f'obligation {failed["name"]}: {failed["reason"][:1500]}')
            lines.append(f'VIOLATION property={prop} replay={path} no-failing-input-found')

    wall = time.time() - start
    write_evidence(prop, tier, seed, mod, result, proof, violations, len(lines), wall)
    print(f'{prop} {tier} seed {seed}: {proof["discharged"]} of {proof["obligations"]} obligations discharged, {len(proof["undecided"])} undecided; '
          f'{result["evaluations"]} contract evaluations ({len(result["digests"])} distinct non-trivial, {result["skipped"]} outside the quantifier); {wall:.1f} s')
    for failed in proof['undecided']:
        print(f'undecided obligation: {failed["name"]}: {failed["reason"][:300]}')
    for line in lines:
        print(line)
    if lines:
        return 1
    problems = result['errors'] + [f'task {name}' for name in result['hung']] + proof['errors']
    if problems or result['evaluations'] == 0:
        for problem in problems:
            print(f'no answer: {problem[-2000:]}')
        return 2
    return 0


def write_evidence(prop, tier, seed, mod, result, proof, violations, count, wall):
    info = meta.META[prop]
    coverage = {
        'evaluations': result['evaluations'],
        'distinct_nontrivial': len(result['digests']),
        'rule': mod.RULE,
        'samples': json.loads(json.dumps(result['samples'], default=repr)),
        'outside_quantifier': result['skipped'],
        'tasks': result['tasks'],
        'truncated_tasks': result['truncated'],
        **layer_evidence(proof)
    }
    if info['level'] == 'proof':
        coverage['checker_cmd'] = f'python3-vt check.py {prop}'
    if info['level'] == 'other':
        coverage['explanation'] = info['note']
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': info['level'], 'coverage': coverage,
        'assumptions': info['assumptions'] + [text for text in proof['assumptions'] if text not in info['assumptions']],
        'wall_s': round(wall, 2), 'violations': count
    }
    path = os.path.join(core.VERIF, 'evidence', f'{prop}.json')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding='utf-8', errors='surrogatepass') as fh:
        json.dump(evidence, fh, indent=1, default=repr)


def layer_evidence(proof):
    return {
        'obligations': proof['obligations'], 'discharged': proof['discharged'],
        'undecided': [failed['name'] for failed in proof['undecided']], 'refuted': [failed['name'] for failed in proof['refuted']],
        'functions_under_contract': proof['functions'], 'back_ends': proof['back_ends'], 'solver_s': round(proof['solver_s'], 2),
        'obligation_list': proof['names'], 'trusted_base': proof['trusted'], 'vacuity_checks': proof['vacuity']
    }


if __name__ == '__main__':
    sys.exit(main())
