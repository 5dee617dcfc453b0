"""Shared pieces of the value layer checks."""
import itertools
import numpy as np


def stubs(env, ints=False):
    from lib import npstub, torchstub, spacestub
    return {'numpy': npstub.NumpyProxy(), 'torch': torchstub.make(env, ints=ints), 'repast4py._space': spacestub.make()}


def num(env, v):
    """Value read from a layer -> number."""
    if env.symbolic:
        return v
    return v.item() if hasattr(v, 'item') else v


def pt(env, c):
    c = list(c) + [0] * (3 - len(c))
    return env.r4.space.DiscretePoint(*c)


def box(env, lo, ext):
    b = []
    for i in range(3):
        b += [lo[i], ext[i]] if i < len(ext) else [0, 0]
    return env.r4.geometry.BoundingBox(*b)


def cells(ext):
    return list(itertools.product(*[range(e) for e in ext]))


def wrap(v, lo, ext, periodic):
    """Border policy for one coordinate: relative cell index (forks)."""
    if bool(v < lo):
        if not periodic:
            return 0
        while bool(v < lo):
            v = v + ext
        r = v - lo
    elif bool(v >= lo + ext):
        if not periodic:
            return ext - 1
        while bool(v >= lo + ext):
            v = v - ext
        r = v - lo
    else:
        r = v - lo
    return int(r)
