"""Harness interface: one definition, run symbolically (pysym) and, for replays and
trace validation, on the real package under mpirun."""
import itertools
import numpy as np


class Harness:
    """run(env) is executed on every rank (SPMD); post(env, outs) judges the observations."""
    name = 'harness'
    ranks = 1
    modules = ()
    allowed_exceptions = ()
    max_collectives = 10 ** 6
    native_leaks = False

    def __init__(self, pin=None, **params):
        self.pin = dict(pin or {})
        self.params = params
        for k, v in params.items():
            setattr(self, k, v)

    def setup(self, env):
        pass

    def run(self, env):
        raise NotImplementedError

    def post(self, env, outs):
        pass

    def on_exception(self, env, exc, tb):
        env.fail('no-exception', f'{type(exc).__name__}: {exc}\n{tb}')

    def on_deadlock(self, env, exc):
        env.fail('no-deadlock', str(exc))

    # stubs for the symbolic run: overridden by harnesses that need torch / the native space
    def stubs(self, env):
        return {}


class RngStub:
    """Stands in for numpy.random.Generator: every draw is an arbitrary value of its range."""

    def __init__(self, env, prefix='rng'):
        self.env, self.prefix, self.n = env, prefix, 0

    def _name(self):
        self.n += 1
        return f'{self.prefix}{self.n}'

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        hi = high if endpoint else high - 1
        if size is not None:
            return np.array([self.env.choice_range(self._name(), int(low), int(hi)) for _ in range(int(size))])
        return self.env.choice_range(self._name(), int(low), int(hi))

    def _perm(self, n):
        rest = list(range(n))
        out = []
        while rest:
            k = self.env.choice_range(self._name(), 0, len(rest) - 1) if len(rest) > 1 else 0
            out.append(rest.pop(k))
        return out

    def shuffle(self, x, axis=0):
        p = self._perm(len(x))
        y = [x[i] for i in p]
        for i, v in enumerate(y):
            x[i] = v

    def permutation(self, x):
        if isinstance(x, (int, np.integer)):
            x = np.arange(x)
        p = self._perm(len(x))
        return np.array([x[i] for i in p])

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        n = a if isinstance(a, (int, np.integer)) else len(a)
        el = (lambda i: i) if isinstance(a, (int, np.integer)) else (lambda i: a[i])
        if size is None:
            return el(self.env.choice_range(self._name(), 0, n - 1))
        if replace:
            return np.array([el(self.env.choice_range(self._name(), 0, n - 1)) for _ in range(size)])
        if size > n:
            raise ValueError("Cannot take a larger sample than population when replace is False")
        return np.array([el(i) for i in self._perm(n)[:size]])

    def random(self, size=None):
        return self.env.real(self._name(), 0, 1)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self.env.real(self._name(), low, high)


class BaseEnv:
    rank = 0
    ll = False
    replaying = False    # an already decided path prefix is being re-executed
    size = 1

    def rng(self, prefix='rng'):
        return RngStub(self, f'{prefix}@{self.rank}.')

    def choice(self, name, n):
        """A solver-chosen alternative out of n (concrete on each path)."""
        return self.choice_range(name, 0, n - 1)


class RealEnv(BaseEnv):
    """Concrete environment: values come from the solver's assignment."""
    symbolic = False

    def __init__(self, values, comm, rank, size, pin, r4, scratch):
        self.valmap, self.comm, self.rank, self.size, self.pin, self.r4 = values, comm, rank, size, pin, r4
        self.scratch = scratch
        self.failed = []

    def _get(self, name, default):
        if name in self.pin:
            return self.pin[name]
        return self.valmap.get(name, default)

    def choice_range(self, name, lo, hi):
        if lo == hi:
            return lo
        v = int(self._get(name, lo))
        return min(max(v, lo), hi)

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo if lo is not None else 0))

    def tick(self, name, lo, hi, den=8):
        return self._get(name, int(lo * den)) / den

    def dbl(self, name, lo, hi, k):
        v = int(self._get(name, lo * (1 << k)))
        return v / (1 << k)

    def dbl_raw(self, name, lo, hi, k):
        return int(self._get(name, lo)) / (1 << k) if k >= 0 else float(int(self._get(name, lo)) << -k)

    def flt(self, x):
        return float(x)

    def arr(self, a):
        return a.tolist()

    def mpi(self, size, rank):
        pass

    def per_rank(self, n, f):
        return self.comm.allgather(f(self.rank))

    def real(self, name, lo=None, hi=None):
        return float(self._get(name, lo if lo is not None else 0))

    def bool(self, name):
        return bool(self._get(name, False))

    def assume(self, c):
        if not c:
            raise AssumptionFailed()

    def check(self, cond, label, detail=None, known=None):
        if callable(cond):
            cond = cond()
        if not bool(cond):
            for k, p in (known or {}).items():
                if bool(p):
                    self.failed.append(('known:' + k, ''))
                    return True
            self.failed.append((label, str(detail() if callable(detail) else detail)[:1500]))
            return False
        return True

    def fail(self, label, detail=None):
        return self.check(False, label, detail)


class AssumptionFailed(Exception):
    pass


class LazyMods:
    def __init__(self):
        self._m = {}

    def __getattr__(self, n):
        import importlib
        return importlib.import_module('repast4py.' + n)
