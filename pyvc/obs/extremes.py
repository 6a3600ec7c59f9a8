"""Obligations of mathMax and mathMin (C11): the result is one of the arguments, and no argument compares beyond it"""

import ast

import z3

from bare_script import library as mod
from pyvc import interp
from pyvc import world as w
from pyvc.dsl import inline, obligation
from pyvc.engine import Base, PathEnd, PyExc, SList, SV, Unsupported, ival
from pyvc.obs import evalx, libx
from pyvc.obs.values import CMP, preorder
from pyvc.terms import SCRIPT_KINDS, Content, V, World


def extreme_loop(sign):
    def contract(ip, frame, node, spc):
        """The running extreme: after k > 0 iterations the local that holds an argument holds one that no argument before k is beyond; the other locals are as they were
        after the first iteration"""
        if spc is None or not isinstance(node, ast.For) or node.orelse or isinstance(spc.n, int):
            return NotImplemented
        carried = [name for name in interp.stored_names(node) if name in frame.locals]
        extra = [name for name in interp.stored_names(node) if name not in frame.locals]
        if not ip.branch(ival(spc.n) > 0):
            return None

        def step(k):
            interp.assign(ip, frame, node.target, spc.at(ip, k))
            try:
                signal = interp.block(ip, frame, node.body)
            except PyExc as exc:
                ip.prove(False, f'an iteration raises {exc.obj.cls.__name__}')
                raise PathEnd() from exc
            if signal is not None and signal[0] != 'continue':
                raise Unsupported('a jump out of the loop')

        i0 = ip.extreme_index

        def holds(t, k):
            """t is an argument before k, and the argument i0, if before k, is not beyond it"""
            values = [t, ip.to_v(ip.values_content.at(ip, i0))]
            ip.assume(preorder(CMP, values))
            return sign * CMP(values[1], t) <= 0

        step(0)
        target = {child.id for child in ast.walk(node.target) if isinstance(child, ast.Name)}
        first = ip.to_v(ip.values_content.at(ip, 0))
        results = [name for name in carried if isinstance(frame.locals.get(name), SV) and frame.locals[name].k == 'val' and ip.to_v(frame.locals[name]).eq(first)]
        others = {name: frame.locals[name] for name in carried if name not in results and name not in target}
        if not results or any(isinstance(val, SV) for val in others.values()):
            raise Unsupported('state of the loop')
        if ip.branch(ival(spc.n) == 1):
            return None
        where = ip.pick(['iteration', 'exit'])
        # A generic state after k iterations
        j = ip.fresh('int', 'j').t
        k = ip.fresh('int', 'k').t if where == 'iteration' else ival(spc.n)
        ip.assume(z3.And(k >= 1, k < ival(spc.n)) if where == 'iteration' else True)
        ip.assume(z3.And(j >= 0, j < k))
        current = ip.values_content.at(ip, j)
        ip.assume(z3.Implies(i0 < k, holds(ip.to_v(current), k)))
        for name in results:
            frame.locals[name] = current
        for name in extra + list(target):
            frame.locals.pop(name, None)
            frame.forgotten.add(name)
        if where == 'exit':
            return None
        element = ip.to_v(ip.values_content.at(ip, k))
        ip.assume(preorder(CMP, [ip.to_v(current), element, ip.to_v(ip.values_content.at(ip, i0))]))
        step(k)
        for name in results:
            t = ip.to_v(frame.locals[name])
            ip.prove(z3.Or(t == ip.to_v(current), t == element), 'the running result is one of the arguments')
            ip.prove(z3.Implies(i0 < k + 1, sign * CMP(ip.to_v(ip.values_content.at(ip, i0)), t) <= 0), 'no argument so far is beyond the running result')
        for name, val in others.items():
            ip.prove(frame.locals[name] is val or frame.locals[name] == val, 'the rest of the state of the loop')
        raise PathEnd()
    return contract


def extreme(name, sign):
    @obligation(f'library.{name}', ['C11', 'C12'], [f'library.{mod.SCRIPT_FUNCTIONS[name].__name__}', 'value.value_compare'])
    def _(ip):
        ip.world = z3.Const('W0', World)
        evalx.contracts(ip)
        content = Base(ip, z3.Const('args', Content), SCRIPT_KINDS)
        i0 = ip.input('int', 'i0').t
        ip.assume(z3.And(i0 >= 0, i0 < ival(content.n)) if ip.pick(['arguments', 'none']) == 'arguments' else ival(content.n) == 0)
        ip.extreme_index, ip.values_content = i0, content
        ip.loop_contracts['*'] = extreme_loop(sign)
        world = ip.world
        got = inline(ip, mod.SCRIPT_FUNCTIONS[name], SList(ip, content), w.Options(ip)).unwrap()
        ip.prove(ip.world == world, 'no effect')
        if got is None:
            ip.prove(ival(content.n) == 0, 'null only without arguments')
            return
        t = ip.to_v(got)
        ip.assume(preorder(CMP, [t, ip.to_v(content.at(ip, i0))]))
        ip.prove(sign * CMP(ip.to_v(content.at(ip, i0)), t) <= 0, 'no argument is beyond the result')
        ip.prove(is_element(ip, t, content), 'the result is one of the arguments')


def is_element(ip, t, content):
    """t is the content's element at some index (read off its form)"""
    c = content.term(ip)
    at = content.at(ip, z3.Int('probe'))
    del at
    if z3.is_app(t) and t.num_args() == 2 and t.arg(0).eq(c):
        return z3.And(t.arg(1) >= 0, t.arg(1) < ival(content.n))
    raise Unsupported('form of the result')


extreme('mathMax', 1)
extreme('mathMin', -1)
