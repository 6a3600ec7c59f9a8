"""Host values of the inputs of a refuted obligation, from the solver's model"""

import datetime
import re

import z3

from pyvc.engine import SDict, SList, SV
from pyvc.terms import V


def inputs(ip, model):
    out = {}
    for name, value in ip.inputs.items():
        try:
            out[name] = host(ip, model, value, 0)
        except (ValueError, z3.Z3Exception, OverflowError, AttributeError):
            out[name] = '?'
    return out


def host(ip, model, value, depth):
    if isinstance(value, SV):
        t = model.eval(value.t, model_completion=True)
        if value.k == 'val':
            return host_v(ip, model, t, depth)
        if value.k == 'bool':
            return z3.is_true(t)
        if value.k == 'int':
            return t.as_long()
        if value.k == 'real':
            return real(t)
        return text(t)
    if isinstance(value, SList):
        return host_list(ip, model, value, depth)
    return '?'


def real(t):
    frac = t.as_fraction()
    return {'$f': repr(float(frac))}


def text(t):
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), t.as_string())


def host_list(ip, model, lst, depth):
    if depth > 3:
        raise ValueError('depth')
    n = lst.content.n
    n = n if isinstance(n, int) else model.eval(n, model_completion=True).as_long()
    if n > 6:
        raise ValueError('length')
    out = []
    for k in range(n):
        from pyvc.engine import CAT, Base
        if not isinstance(lst.content, Base):
            raise ValueError('content')
        out.append(host_v(ip, model, model.eval(CAT(lst.content.t, z3.IntVal(k)), model_completion=True), depth + 1))
    return out


def host_v(ip, model, t, depth):
    name = t.decl().name()
    if name == 'none':
        return None
    arg = t.arg(0)
    if name == 'bool':
        return z3.is_true(arg)
    if name == 'int':
        value = arg.as_long()
        return value if abs(value) < 2 ** 53 else {'$i': str(value)}
    if name == 'flt':
        return real(arg)
    if name == 'str':
        return text(arg)
    if name == 'dtn':
        return {'$dt': (datetime.datetime.min + datetime.timedelta(microseconds=arg.as_long())).isoformat()}
    raise ValueError(name)
