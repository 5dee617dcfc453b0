"""Symbolic stand-ins for Python numbers; branches fork in the engine."""
import math
from fractions import Fraction
import numpy as np
import z3
from .engine import Engine


def _eng():
    return Engine.current


def _each(a, f):
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        r[i] = f(a[i])
    return r


def is_sym(x):
    return isinstance(x, Sym)


def _num(x):
    """Python number / proxy -> z3 arithmetic term, or None."""
    if isinstance(x, SymNum):
        return x.z
    if isinstance(x, SymBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return None
        f = Fraction(x)
        return z3.RealVal(f)
    if hasattr(x, 'dtype') and hasattr(x, 'item') and getattr(x, 'shape', None) == ():
        return _num(x.item())
    return None


def special(x):
    """+1 / -1 for infinities, 'nan', else None."""
    if hasattr(x, 'dtype') and hasattr(x, 'item') and getattr(x, 'shape', None) == ():
        x = x.item()
    if isinstance(x, float):
        if math.isnan(x):
            return 'nan'
        if math.isinf(x):
            return 1 if x > 0 else -1
    return None


class Sym:
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return f'<{self.z}>'


class SymBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return _eng().fork(self.z)

    def __and__(self, o):
        return SymBool(z3.And(self.z, bz(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.z, bz(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.z))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.z == bz(o))
        n = _num(o)
        return NotImplemented if n is None else SymBool(_num(self) == n)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else SymBool(z3.Not(r.z))

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__


def bz(o):
    if isinstance(o, SymBool):
        return o.z
    if isinstance(o, z3.BoolRef):
        return o
    return z3.BoolVal(bool(o))


def wrap(z):
    if z3.is_int(z):
        return SymInt(z)
    if z3.is_real(z):
        return SymReal(z)
    return SymBool(z)


class SymNum(Sym):
    __slots__ = ()
    __array_priority__ = 1000

    def _bin(self, o, f, swap=False):
        if isinstance(o, np.ndarray) and o.shape != ():
            return _each(o, lambda x: self._bin(x, f, swap))
        n = _num(o)
        if n is None:
            return NotImplemented
        a, b = (n, self.z) if swap else (self.z, n)
        return wrap(f(a, b))

    def __add__(self, o):
        s = special(o)
        if s is not None:
            return o
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        s = special(o)
        if s is not None:
            return -o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        s = special(o)
        if s is not None:
            return o
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self):
        return wrap(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(z3.If(self.z < 0, -self.z, self.z))

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: _real(a) / _real(b))

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: _real(a) / _real(b), True)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        return NotImplemented

    def _cmp(self, o, f, sp):
        if isinstance(o, np.ndarray) and o.shape != ():
            # numpy comparisons yield boolean arrays: every element is decided
            return _each(o, lambda x: self._cmp(x, f, sp)).astype(bool)
        s = special(o)
        if s is not None:
            return False if s == 'nan' else sp(s)
        n = _num(o)
        if n is None:
            return NotImplemented
        return SymBool(f(self.z, n))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda s: s > 0)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda s: s > 0)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda s: s < 0)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda s: s < 0)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return False
        return self._cmp(o, lambda a, b: a == b, lambda s: False)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if isinstance(r, bool):
            return not r
        if isinstance(r, np.ndarray):
            return ~r
        return SymBool(z3.Not(r.z))

    def __bool__(self):
        return _eng().fork(self.z != 0)

    def __hash__(self):
        raise TypeError(f'symbolic number used as a hash key: {self.z}')


def _real(a):
    return z3.ToReal(a) if z3.is_int(a) else a


def floordiv(a, b):
    """Python floor division; b must be provably non-zero in sign (forks)."""
    if bool(wrap_cmp(b > 0)):
        if not z3.is_int_value(z3.simplify(b)):
            # quotients of near values case by case: keeps the queries linear
            for q in (0, -1, 1):
                if bool(wrap_cmp(z3.And(q * b <= a, a < (q + 1) * b))):
                    return z3.IntVal(q)
        return a / b
    if bool(wrap_cmp(b < 0)):
        return (-a) / (-b)
    raise ZeroDivisionError('integer division or modulo by zero')


def floormod(a, b):
    return a - floordiv(a, b) * b


def wrap_cmp(z):
    return SymBool(z)


class SymInt(SymNum):
    __slots__ = ()

    def __floordiv__(self, o):
        return self._bin(o, floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, floordiv, True)

    def __mod__(self, o):
        return self._bin(o, floormod)

    def __rmod__(self, o):
        return self._bin(o, floormod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    # bit operations: exact for masks and shifts, otherwise over 64 bits
    def _bits(self, o, f):
        if not isinstance(o, (int, SymInt)):
            return NotImplemented
        a = z3.Int2BV(self.z, 64)
        b = z3.BitVecVal(int(o), 64) if isinstance(o, int) else z3.Int2BV(o.z, 64)
        return SymInt(z3.BV2Int(f(a, b), True))

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and o & (o + 1) == 0:
            return self % (o + 1)
        return self._bits(o, lambda a, b: a & b)

    def __or__(self, o):
        return self._bits(o, lambda a, b: a | b)

    def __xor__(self, o):
        return self._bits(o, lambda a, b: a ^ b)

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self):
        return -self - 1

    def __lshift__(self, o):
        return self * 2 ** int(o)

    def __rshift__(self, o):
        return self // 2 ** int(o)

    def is_integer(self):
        return True

    def __index__(self):
        return _eng().concretize(self.z)

    def __int__(self):
        return _eng().concretize(self.z)

    def __float__(self):
        return float(_eng().concretize(self.z))

    def __hash__(self):
        return hash(_eng().concretize(self.z))

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        return self

    def item(self):
        return self

    def __format__(self, spec):
        return format(_eng().concretize(self.z), spec) if spec else text(self)

    def __str__(self):
        return text(self)


class SymReal(SymNum):
    __slots__ = ()

    def __floor__(self):
        return SymInt(z3.ToInt(self.z))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.z))

    def __trunc__(self):
        return SymInt(z3.If(self.z >= 0, z3.ToInt(self.z), -z3.ToInt(-self.z)))

    def __int__(self):
        return _eng().concretize(z3.If(self.z >= 0, z3.ToInt(self.z), -z3.ToInt(-self.z)))

    def __round__(self, n=None):
        # half to even; the rounding of the double result is not modelled
        k = 10 ** (n or 0)
        y = self.z * z3.RealVal(k)
        q = z3.ToInt(y + z3.RealVal('1/2'))
        r = z3.If(z3.And(z3.ToReal(q) == y + z3.RealVal('1/2'), q % 2 == 1), q - 1, q)
        return SymInt(r) if n is None else SymReal(z3.ToReal(r) / z3.RealVal(k))

    def is_integer(self):
        return bool(SymBool(z3.IsInt(self.z)))

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: z3.ToReal(z3.ToInt(_real(a) / _real(b))))

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: z3.ToReal(z3.ToInt(_real(a) / _real(b))), True)

    def __mod__(self, o):
        return self._bin(o, lambda a, b: _real(a) - _real(b) * z3.ToReal(z3.ToInt(_real(a) / _real(b))))

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: _real(a) - _real(b) * z3.ToReal(z3.ToInt(_real(a) / _real(b))), True)

    def __str__(self):
        return text(self)

    def __format__(self, spec):
        if spec:
            raise TypeError('formatting of a symbolic real: ' + spec)
        return text(self)

    def is_integer(self):
        return SymBool(z3.IsInt(self.z))

    def item(self):
        return self


class SymVal(Sym):
    """Opaque value of an uninterpreted sort: only equality is meaningful."""
    __slots__ = ()
    SORT = z3.DeclareSort('Val')

    def __eq__(self, o):
        if isinstance(o, SymVal):
            return SymBool(self.z == o.z)
        return False

    def __ne__(self, o):
        if isinstance(o, SymVal):
            return SymBool(self.z != o.z)
        return True

    def __hash__(self):
        return 7


def text(x):
    """Text standing for the decimal form of a symbolic number; read back by untext()."""
    t = _eng().texts
    k = x.z.get_id()
    if k not in t:
        t[k] = x
        t['\u27e6%d\u27e7' % k] = x
    return '\u27e6%d\u27e7' % k


def untext(s):
    """The symbolic number a text stands for, or None."""
    return _eng().texts.get(s.strip()) if isinstance(s, str) else None


# int(...) and float(...) calls of the modules under test: conversions of symbolic numbers stay symbolic
def py_int(*a, **k):
    if len(a) == 1 and not k:
        if isinstance(a[0], SymNum):
            return a[0].__trunc__()
        if isinstance(a[0], str) and '\u27e6' in a[0]:
            v = untext(a[0])
            if not isinstance(v, SymInt):
                raise ValueError('invalid literal for int() with base 10: ' + a[0])
            return v
    return int(*a, **k)


def py_float(*a, **k):
    if len(a) == 1 and isinstance(a[0], SymInt):
        return SymReal(z3.ToReal(a[0].z))
    if len(a) == 1 and isinstance(a[0], SymReal):
        return a[0]
    if len(a) == 1 and isinstance(a[0], str) and '\u27e6' in a[0]:
        v = untext(a[0])
        if v is None:
            raise ValueError('could not convert string to float: ' + a[0])
        return py_float(v)
    return float(*a, **k)


BUILTINS = {'__vp_int__': py_int, '__vp_float__': py_float}
