"""numpy whose freshly created numeric arrays can hold symbolic values (object dtype)."""
import types
import numpy as np
from .pysym import ops
from .pysym.proxies import Sym, SymInt
import numpy.random, numpy.linalg, numpy.lib, numpy.ma, numpy.fft  # noqa: loaded with the real numpy in place
import networkx  # noqa: loaded before numpy is replaced for a module set


def coerce(v, dt):
    """What an array of the numeric type dt keeps of v: integers beyond the mantissa lose their last bits, fractions in integer arrays are cut."""
    if isinstance(v, (bool, np.bool_)) or v is None:
        return v
    if not isinstance(v, Sym):
        r = np.asarray([v]).astype(dt)[0].item()
        return r
    if dt.kind in 'iu':
        if not isinstance(v, SymInt):
            return v
        m = 1 << (8 * dt.itemsize)
        lo = -(m >> 1) if dt.kind == 'i' else 0
        return ops.ite(ops.conj([v >= lo, v < lo + m]), v, (v - lo) % m + lo)
    if dt.kind == 'f' and isinstance(v, SymInt):
        lim = 1 << (np.finfo(dt).nmant + 1)
        r = v % 4
        return ops.ite(ops.conj([v >= -lim, v <= lim]), v, v - r + ops.ite(r == 1, 0, ops.ite(r == 3, 4, r)))
    return v


class Narrow(np.ndarray):
    """Object array that keeps of its values what an array of its declared type would."""
    decl = None

    def __array_finalize__(self, o):
        self.decl = getattr(o, 'decl', None)

    def __setitem__(self, k, v):
        if self.decl is not None:
            if isinstance(v, np.ndarray):
                w = np.empty(v.shape, dtype=object)
                for i in np.ndindex(*v.shape):
                    w[i] = coerce(v[i], self.decl)
                v = w
            elif not isinstance(v, (list, tuple)):
                v = coerce(v, self.decl)
        np.ndarray.__setitem__(self, k, v)


def narrow(a, dtype, kinds='fiu'):
    """a as an array of the declared type, if that is a plain number type."""
    if dtype is None or dtype is object:
        return a
    dt = np.dtype(dtype)
    if dt.kind not in kinds:
        return a
    a = a.view(Narrow)
    a.decl = dt
    return a


class NumpyProxy(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')

    def __getattr__(self, n):
        return getattr(np, n)

    @staticmethod
    def _dt(kw, pos=None):
        return {k: v for k, v in kw.items() if k != 'dtype'} | {'dtype': object}

    def array(self, x, dtype=None, **kw):
        return np.array(x, dtype=object, **kw)

    def asarray(self, x, dtype=None, **kw):
        return np.asarray(x, dtype=object, **kw)

    def empty(self, shape, dtype=None, **kw):
        return narrow(np.zeros(shape, dtype=object, **kw), dtype)

    def zeros(self, shape, dtype=None, **kw):
        # integer arrays made with zeros hold counts and bounds, which fit
        return narrow(np.zeros(shape, dtype=object, **kw), dtype, 'f')

    def ones(self, shape, dtype=None, **kw):
        return np.full(shape, 1, dtype=object)

    def full(self, shape, val, dtype=None, **kw):
        return np.full(shape, val, dtype=object)

    def empty_like(self, a, dtype=None, **kw):
        return np.zeros(np.shape(a), dtype=object)

    zeros_like = empty_like

    def arange(self, *a, dtype=None, **kw):
        return np.arange(*[int(x) for x in a]).astype(object)


for _n in ('ndarray', 'int32', 'int64', 'float64'):
    setattr(NumpyProxy, _n, getattr(np, _n))
