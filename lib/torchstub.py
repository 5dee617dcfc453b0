"""Stands in for the torch module: tensors are numpy arrays whose elements may be symbolic."""
import types
import numpy as np
from .pysym.proxies import Sym
from .npstub import coerce


def _index(k):
    if isinstance(k, tuple):
        return tuple(_index(i) for i in k)
    if isinstance(k, slice):
        return slice(*[None if x is None else int(x) for x in (k.start, k.stop, k.step)])
    if isinstance(k, Sym):
        return int(k)
    if isinstance(k, np.ndarray) and k.dtype == object:
        return np.array([int(x) for x in k.ravel()], dtype=np.int64).reshape(k.shape)
    if isinstance(k, list):
        return [int(x) for x in k]
    return k


class Tensor(np.ndarray):
    """Object array with torch's method names; indices are made concrete by the engine."""
    decl = None

    def __array_finalize__(self, o):
        self.decl = getattr(o, 'decl', None)

    def __getitem__(self, k):
        return np.ndarray.__getitem__(self, _index(k))

    def __setitem__(self, k, v):
        if isinstance(v, np.ndarray):
            # torch raises on a shape mismatch exactly like numpy broadcasting
            v = v.view(np.ndarray)
            if self.decl is not None:
                w = np.empty(v.shape, dtype=object)
                for i in np.ndindex(*v.shape):
                    w[i] = coerce(v[i], self.decl)
                v = w
        elif self.decl is not None:
            v = coerce(v, self.decl)
        np.ndarray.__setitem__(self, _index(k), v)

    def numpy(self):
        return self.view(np.ndarray)

    def clone(self):
        return self.copy()


def make(env, rand=None, ints=False):
    """rand(shape) -> contents of a randomly initialised tensor (arbitrary values). Tensors whose type is too narrow for
    the values of the check lose digits: float32 and less, and float64 if the check's values are large integers (ints)."""
    lossy = {'float32', 'float16', 'int32', 'int16', 'int8'} | ({'float64'} if ints else set())

    def declared(a, dtype):
        a = a.view(Tensor)
        if dtype in lossy:
            a.decl = np.dtype(dtype)
            a[...] = a
        return a
    t = types.ModuleType('torch')
    t.float64, t.long, t.int64, t.double, t.float = 'float64', 'int64', 'int64', 'float64', 'float32'
    t.float32, t.float16, t.int32, t.int16, t.int8, t.int = 'float32', 'float16', 'int32', 'int16', 'int8', 'int32'
    t.Tensor = Tensor
    t.manual_seed = lambda s: None
    cnt = [0]

    def full(shape, val, dtype=None):
        a = np.empty(tuple(int(x) for x in shape), dtype=object)
        a[...] = val
        return declared(a, dtype)

    def rnd(shape, dtype=None):
        cnt[0] += 1
        a = np.empty(tuple(int(x) for x in shape), dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = rand(cnt[0], i) if rand else env.real(f'rand{cnt[0]}@{env.rank}.{i}')
        return declared(a, dtype)
    t.full, t.rand = full, rnd

    def as_tensor(a, dtype=None):
        a = np.asarray(a)
        return (a.view(np.ndarray) if dtype is None else a).view(Tensor) if not isinstance(a, Tensor) else a
    t.as_tensor = t.tensor = t.from_numpy = as_tensor
    t.zeros = lambda shape, dtype=None: full(shape, 0, dtype)
    t.ones = lambda shape, dtype=None: full(shape, 1, dtype)
    return t
