"""Concolic values of the harness side (Python) and the environment of an instrumented run."""
import ctypes
import struct
from lib.harness import BaseEnv, AssumptionFailed
from lib.llsym.instr import OPS

RTI = None
M64 = (1 << 64) - 1


class Stop(Exception):
    pass


def bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


class SBool:
    __slots__ = ('c', 'n')

    def __init__(self, c, n):
        self.c, self.n = bool(c), n

    def __bool__(self):
        if self.n:
            RTI.lib.rt_branch(self.n, int(self.c))
        return self.c

    def _bin(self, o, name, c):
        on, oc = (o.n, o.c) if isinstance(o, SBool) else (0, bool(o))
        return mkb(c, RTI.op(name, 1, 1, self.n, int(self.c), on, int(oc), int(c)))

    def __and__(self, o):
        return self._bin(o, 'and', self.c and bool_c(o))
    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, 'or', self.c or bool_c(o))
    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, 'xor', self.c != bool_c(o))
    __rxor__ = __xor__

    def __invert__(self):
        return self._bin(True, 'xor', not self.c)

    def __repr__(self):
        return repr(self.c)


def bool_c(o):
    return o.c if isinstance(o, SBool) else bool(o)


def mkb(c, n):
    return SBool(c, n) if n else bool(c)


def conj(*xs):
    r = True
    for x in xs:
        r = (x & r) if isinstance(x, SBool) else ((r & x) if isinstance(r, SBool) else (r and bool(x)))
    return r


def disj(*xs):
    r = False
    for x in xs:
        r = (x | r) if isinstance(x, SBool) else ((r | x) if isinstance(r, SBool) else (r or bool(x)))
    return r


def neg(x):
    return ~x if isinstance(x, SBool) else not x


def implies(a, b):
    return disj(neg(a), b)


def ite(c, a, b):
    if not isinstance(c, SBool):
        return a if c else b
    if isinstance(a, SBool) or isinstance(b, SBool) or isinstance(a, bool):
        return disj(conj(c, a), conj(neg(c), b))
    fl = isinstance(a, float) or isinstance(b, float)
    an, av = val(a, fl)
    bn, bv = val(b, fl)
    r = (float if fl else int)(a if c.c else b)
    n = RTI.op('select', 64 | (256 if fl else 0), 64, c.n, int(c.c), an, av, raw(r), bn, bv)
    return (SFloat if fl else SInt)(r, n)


def raw(x):
    return bits(x) if isinstance(x, float) else int(x) & M64


def val(x, fl):
    """(node, raw concrete value) of a Python number as int or double"""
    if fl:
        if isinstance(x, SInt):
            f = float(int(x))
            return RTI.op('sitofp', 64 | 256, 64, x.n, int(x) & M64, 0, 0, bits(f)), bits(f)
        return (x.n if isinstance(x, SFloat) else 0), bits(float(x))
    return (x.n if isinstance(x, SInt) else 0), int(x) & M64


def _arith(name, fname, pyop):
    def f(self, o, rev=False):
        if isinstance(o, (SBool, str)) or not isinstance(o, (int, float)):
            if hasattr(o, 'item'):
                o = o.item()
            else:
                return NotImplemented
        a, b = (o, self) if rev else (self, o)
        fl = isinstance(a, float) or isinstance(b, float)
        nm = fname if fl else name
        if nm is None:
            return NotImplemented
        ca, cb = (float(a), float(b)) if fl else (int(a), int(b))
        r = pyop(ca, cb)
        an, av = val(a, fl)
        bn, bv = val(b, fl)
        n = RTI.op(nm, 64 | (256 if fl else 0), 64, an, av, bn, bv, raw(r))
        return ((SFloat if fl else SInt)(r, n)) if n else r
    return f


def _cmp(name, fname, pyop):
    def f(self, o):
        if not isinstance(o, (int, float)) or isinstance(o, bool):
            if hasattr(o, 'item'):
                o = o.item()
            elif not isinstance(o, bool):
                return NotImplemented
        fl = isinstance(self, float) or isinstance(o, float)
        c = pyop(float(self), float(o)) if fl else pyop(int(self), int(o))
        an, av = val(self, fl)
        bn, bv = val(o, fl)
        return mkb(c, RTI.op(fname if fl else name, 1, 64, an, av, bn, bv, int(c)))
    return f


class _Num:
    def __new__(cls, v, n=0):
        o = cls._base.__new__(cls, v)
        o.n = n
        return o

    def __hash__(self):
        RTI.lib.rt_concretize(self.n, raw(self._base(self)))
        return hash(self._base(self))

    def __index__(self):
        RTI.lib.rt_concretize(self.n, raw(self._base(self)))
        return int.__index__(int(self))

    def __deepcopy__(self, memo):
        return self
    __copy__ = lambda self: self

    def __bool__(self):
        return bool(self != 0)


import operator as _o   # noqa
def _cmod(self, m):
    """remainder with the sign of the dividend (zero exactly when m divides it)"""
    r = int(self)
    mv = int(m)
    q = abs(r) % abs(mv) * (1 if r >= 0 else -1)
    mn, mr = val(m, False)
    n = RTI.op('srem', 64, 64, self.n, raw(r), mn, mr, raw(q))
    return SInt(q, n) if n else q


for _n, _i, _f, _p in (('add', 'add', 'fadd', _o.add), ('sub', 'sub', 'fsub', _o.sub), ('mul', 'mul', 'fmul', _o.mul)):
    _g = _arith(_i, _f, _p)
    setattr(_Num, f'__{_n}__', _g)
    setattr(_Num, f'__r{_n}__', (lambda g: lambda self, o: g(self, o, True))(_g))
for _n, _i, _f in (('lt', 'slt', 'olt'), ('le', 'sle', 'ole'), ('gt', 'sgt', 'ogt'), ('ge', 'sge', 'oge'), ('eq', 'eq', 'oeq'), ('ne', 'ne', 'une')):
    setattr(_Num, f'__{_n}__', _cmp(_i, _f, getattr(_o, _n)))


def _unsupported(self, *a):
    raise TypeError('operation not supported on symbolic values')


for _n in ('floordiv', 'rfloordiv', 'truediv', 'rtruediv', 'mod', 'rmod', 'pow', 'rpow', 'lshift', 'rlshift', 'rshift', 'rrshift', 'abs', 'round', 'divmod',
           'rdivmod', 'and', 'rand', 'or', 'ror', 'xor', 'rxor', 'invert', 'floor', 'ceil'):
    setattr(_Num, f'__{_n}__', _unsupported)


class SInt(_Num, int):
    _base = int
    __mod__ = _cmod

    def __neg__(self):
        return 0 - self

    def __repr__(self):
        return int.__repr__(int(self))
    __str__ = __repr__

    def __int__(self):
        return int.__int__(self)


class SFloat(_Num, float):
    _base = float

    def __neg__(self):
        return 0.0 - self

    def __repr__(self):
        return float.__repr__(float.__float__(self))
    __str__ = __repr__

    def __float__(self):
        return float.__float__(self)


class RT:
    def __init__(self, path):
        global RTI
        L = ctypes.PyDLL(path)
        self.lib = L
        for f in ('rt_nnodes', 'rt_nevents', 'rt_stat'):
            getattr(L, f).restype = ctypes.c_uint64
        for f in ('rt_nodes', 'rt_events'):
            getattr(L, f).restype = ctypes.c_void_p
        u32, u64, vp = ctypes.c_uint32, ctypes.c_uint64, ctypes.c_void_p
        L.rt_op.argtypes = [u32, u32, u32, u32, u64, u32, u64, u32, u64, u64]
        L.rt_op.restype = u32
        L.rt_input.argtypes = [u32, u32, u64, u64, u64]
        L.rt_input.restype = u32
        L.rt_event.argtypes = [u32, u32, u64, u64]
        L.rt_branch.argtypes = [u32, u64]
        L.rt_concretize.argtypes = [u32, u64]
        L.rt_store.argtypes = [vp, u32, u32, u64]
        L.rt_peek.argtypes = [vp, u32]
        L.rt_peek.restype = u32
        L.rt_config.argtypes = [u32, ctypes.py_object, ctypes.py_object]
        L.rt_config(OPS['eq'], SInt, SFloat)
        L.rt_ops(OPS['sitofp'], OPS['trunc'], OPS['sext'], OPS['zext'], OPS['input'])
        RTI = self

    def op(self, name, w, w0, a, av, b, bv, res, c=0, cv=0):
        return self.lib.rt_op(OPS[name], w, w0, a, av, b, bv, c, cv, res)

    def reset(self):
        self.lib.rt_reset()
        self.lib.rt_mpi_reset()
        self.lib.rt_mpi(1, 0)

    def dump(self):
        L = self.lib
        n = L.rt_nnodes()
        e = L.rt_nevents()
        return (ctypes.string_at(L.rt_nodes(), n * 56) if n else b'', ctypes.string_at(L.rt_events(), e * 24) if e else b'')


E_BRANCH, E_CONC, E_CHECK, E_KNOWN, E_ASSUME = 1, 2, 3, 4, 5


class LLEnv(BaseEnv):
    symbolic = True
    ll = True

    def __init__(self, rt, values, comm, pin, r4, scratch):
        self.rt, self.values, self.comm, self.pin, self.r4, self.scratch = rt, values, comm, pin, r4, scratch
        self.labels, self.details, self.inputs, self.failed, self.known_keys = [], {}, [], [], []
        self._in = {}
        self.shared = {}

    # inputs ---------------------------------------------------------------------------------------
    def _input(self, name, lo, hi, k=None):
        """integer input (k None) or the double (integer)/2^k"""
        if name in self._in:
            return self._in[name]
        v = int(self.values.get(name, lo))
        idx = len(self.inputs)
        self.inputs.append([name, lo, hi, k])
        if k is None:
            r = SInt(v, self.rt.lib.rt_input(OPS['input'], 64, idx, 0, v & M64))
        else:
            x = v / (1 << k) if k >= 0 else float(v * (1 << -k))
            r = SFloat(x, self.rt.lib.rt_input(OPS['inputf'], 64 | 256, idx, k & M64, bits(x)))
        self._in[name] = r
        return r

    def choice_range(self, name, lo, hi):
        if lo == hi:
            return lo
        if name in self.pin:
            return self.pin[name]
        x = self._input(name, lo, hi)
        self.rt.lib.rt_concretize(x.n, raw(int(x)))
        return int(x)

    def int(self, name, lo=None, hi=None):
        if name in self.pin:
            return self.pin[name]
        return self._input(name, lo, hi)

    def dbl(self, name, lo, hi, k):
        """a double: a multiple of 2^-k with lo <= x <= hi (integers lo, hi)"""
        if name in self.pin:
            return self.pin[name] / (1 << k)
        return self._input(name, lo * (1 << k), hi * (1 << k), k)

    def dbl_raw(self, name, lo, hi, k):
        """a double i / 2^k with integer lo <= i <= hi (|lo|, |hi| <= 2^53)"""
        if name in self.pin:
            return self.pin[name] / (1 << k) if k >= 0 else float(self.pin[name] << -k)
        return self._input(name, lo, hi, k)

    def bool(self, name):
        return bool(self.choice_range(name, 0, 1))

    # judgement --------------------------------------------------------------------------------------
    def assume(self, c):
        if isinstance(c, SBool) and c.n:
            self.rt.lib.rt_event(E_ASSUME, c.n, int(c.c), 0)
        if not bool_c(c):
            raise AssumptionFailed()

    def check(self, cond, label, detail=None, known=None):
        if callable(cond):
            cond = cond()
        n, c = (cond.n, cond.c) if isinstance(cond, SBool) else (0, bool(cond))
        if label not in self.labels:
            self.labels.append(label)
        li = self.labels.index(label)
        ks = []
        for key, p in (known or {}).items():
            kn, kc = (p.n, p.c) if isinstance(p, SBool) else (0, bool(p))
            if key not in self.known_keys:
                self.known_keys.append(key)
            ks.append((self.known_keys.index(key), kn, kc))
        for ki, kn, kc in ks:
            self.rt.lib.rt_event(E_KNOWN, kn, int(kc), ki)
        self.rt.lib.rt_event(E_CHECK, n, int(c), li)
        if not c:
            kk = [self.known_keys[ki] for ki, kn, kc in ks if kc]
            if kk:
                self.failed.append(['known:' + kk[0], ''])
                return True
            self.failed.append([label, str(detail() if callable(detail) else detail)[:1500]])
            raise Stop()
        return True

    def fail(self, label, detail=None):
        return self.check(False, label, detail)

    # access to the compiled code ----------------------------------------------------------------------
    def mpi(self, size, rank):
        """The following constructors run as `rank` of `size` simulated processes."""
        self.rt.lib.rt_mpi(size, rank)

    def per_rank(self, n, f):
        """[f(0), .., f(n - 1)], each called as that rank"""
        out = []
        for r in range(n):
            self.mpi(n, r)
            out.append(f(r))
        return out

    def flt(self, x):
        """A float constant. (A plain float on the left of an operation with a symbolic int computes a concrete result.)"""
        return SFloat(x, 0)

    def arr(self, a):
        """values of a 3 element numpy array the compiled code wrote"""
        fl = a.dtype.kind == 'f'
        out = []
        base = a.ctypes.data
        for i in range(a.shape[0]):
            x = a[i].item()
            n = self.rt.lib.rt_peek(base + i * a.strides[0], a.itemsize)
            out.append(SFloat(x, n) if fl else SInt(x, n) if n else x)
        return out


def norm(x):
    import numpy as np
    if isinstance(x, SInt):
        return int(x)
    if isinstance(x, SFloat):
        return float.__float__(x)
    if isinstance(x, SBool):
        return x.c
    if isinstance(x, (bool, int, float, str)) or x is None:
        return x
    if isinstance(x, np.ndarray):
        return [norm(i) for i in x.tolist()]
    if isinstance(x, (list, tuple)):
        return [norm(i) for i in x]
    if isinstance(x, (set, frozenset)):
        return sorted((norm(i) for i in x), key=repr)
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    if hasattr(x, 'item'):
        return x.item()
    return repr(x)
