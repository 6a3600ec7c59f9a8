"""C01: parse_script ; execute_script == big-step reading of the structured source"""

import itertools

from hv import progs

TITLE = 'structured control flow'
RULE = ('every nesting shape of the seven constructs (one child in every body position) to the stated depth, at global scope and inside a '
        'function, with no / unconditional / conditional break and continue innermost, plus random programs to depth 5 with up to 3 functions; '
        'conditions draw from schedules of all value types; non-trivial: the program contains at least one structured construct')


def check_prog(case):
    text = progs.text_of(case['prog'])
    real = progs.run_real(text, case)
    ref = progs.run_ref(case['prog'], case)
    for name, got, want in zip(('result', 'log', 'globals'), real, ref):
        if got != want:
            return f'{name} differs: got {got!r}, structured reading gives {want!r}; script: {text!r}'
    return None


CHECKS = {'prog': check_prog}


def nontrivial(_kind, case):
    return progs.depth_of(case['prog']) > 0


def shrink(_kind, case):
    for prog in progs.shrink_prog(case['prog']):
        yield {**case, 'prog': prog}
    for key in case['sched']:
        if case['sched'][key]:
            yield {**case, 'sched': {**case['sched'], key: case['sched'][key][:-1]}}


JUMPS = (None, 'b0', 'b1', 'c0', 'c1')


def gen_shapes(rng, params):
    depth, part, parts, scheds = params
    for ix, (tree, jump, infn) in enumerate(itertools.product(progs.shape_trees(depth), JUMPS, (False, True))):
        if ix % parts != part:
            continue
        prog = progs.shape_prog(tree, itertools.count(), False, jump)
        if infn:
            prog = [['func', 'f', ['p'], False, prog + [['return', "'r'"]]], ['assign', 'res', 'f(1)'], ['expr', "out('end')"], ['return', 'res']]
        else:
            prog = prog + [['return', "'r'"]]
        for _ in range(scheds):
            yield 'prog', {'prog': prog, 'sched': progs.random_sched(rng, progs.cond_keys(prog))}


def gen_two(rng, params):
    """Two constructs in sequence in two scopes"""
    part, parts = params
    for ix, (t1, t2) in enumerate(itertools.product(progs.shape_trees(2), progs.shape_trees(1))):
        if ix % parts != part:
            continue
        ctr = itertools.count()
        p1 = progs.shape_prog(t1, ctr, False, rng.choice(JUMPS))
        p2 = progs.shape_prog(t2, ctr, False, rng.choice(JUMPS))
        p3 = progs.shape_prog(t2, ctr, False, rng.choice(JUMPS))
        prog = p1[:-1] + [['func', 'f', [], False, p2], ['func', 'g', ['a'], True, p3]] + p1[-1:] + [['expr', 'f()'], ['expr', 'g(1, 2)']] + p2
        yield 'prog', {'prog': prog, 'sched': progs.random_sched(rng, progs.cond_keys(prog))}


def gen_random(rng, params):
    for _ in range(params):
        yield 'prog', progs.random_case(rng)


def tasks(tier):
    quick = tier == 'quick'
    res = [(f'shapes-{p}', gen_shapes, (3, p, 16, 2 if quick else 12)) for p in range(16)]
    res += [(f'two-{p}', gen_two, (p, 4)) for p in range(4)]
    res += [(f'random-{p}', gen_random, 1200 if quick else 20000) for p in range(16)]
    return res
