"""Logic over possibly symbolic data that works with z3 (symbolic run) and without (replay)."""
import numpy as np
try:
    import z3
    from .proxies import Sym, SymBool, _num, wrap
    _BR = z3.BoolRef
except ImportError:      # replay interpreter: everything is concrete
    z3 = None

    class Sym:
        pass

    class _BR:
        pass


def eq(a, b):
    """z3 term (or bool) for structural equality of possibly symbolic data, without forking."""
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(b, np.ndarray):
        b = b.tolist()
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return conj([eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() != b.keys():
            return False
        return conj([eq(a[k], b[k]) for k in a])
    if isinstance(a, Sym):
        r = a == b
    elif isinstance(b, Sym):
        r = b == a
    else:
        if isinstance(a, (list, tuple, dict)) != isinstance(b, (list, tuple, dict)):
            return False
        return bool(a == b)
    return getattr(r, 'z', r)


def conj(xs):
    out = []
    for x in xs:
        x = getattr(x, 'z', x)
        if isinstance(x, _BR):
            out.append(x)
        elif not x:
            return False
    return z3.And(*out) if out else True


def disj(xs):
    out = []
    for x in xs:
        x = getattr(x, 'z', x)
        if isinstance(x, _BR):
            out.append(x)
        elif x:
            return True
    return z3.Or(*out) if out else False


def neg(x):
    x = getattr(x, 'z', x)
    return z3.Not(x) if isinstance(x, _BR) else (not x)


def ite(c, a, b):
    c = getattr(c, 'z', c)
    if not isinstance(c, _BR):
        return a if c else b
    za, zb = _num(a), _num(b)
    return wrap(z3.If(c, za, zb))


def implies(a, b):
    return disj([neg(a), b])
