"""A simulated MPI world: N ranks as threads of which exactly one runs at a time.

Ranks interact only through blocking collectives, so their interleaving between
collectives cannot influence results; the scheduler runs the lowest runnable rank.
Transmitted data is deep-copied, as pickling does.
"""
import copy
import threading
import types
import numpy as np
from .engine import PathAbort, Engine, Inconclusive, Nondeterminism


class Deadlock(Exception):
    pass


class _Kill(BaseException):
    pass


class Op:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __call__(self, a, b):
        return self.f(a, b)


def _ite(c, a, b):
    from .ops import ite
    return ite(c, a, b)


def _min(a, b):
    if a is b:
        return a
    return a if not hasattr(a, 'z') and not hasattr(b, 'z') and a <= b else (
        b if not hasattr(a, 'z') and not hasattr(b, 'z') else _symmin(a, b))


def _symmin(a, b):
    return a if bool(a <= b) else b


MIN = Op('MIN', _min)
MAX = Op('MAX', lambda a, b: a if bool(a >= b) else b)
# element-wise reductions of buffers do not fork
_ELEM = {'MIN': lambda a, b: _ite(a <= b, a, b), 'MAX': lambda a, b: _ite(a >= b, a, b)}
SUM = Op('SUM', lambda a, b: a + b)
PROD = Op('PROD', lambda a, b: a * b)
LAND = Op('LAND', lambda a, b: bool(a) and bool(b))
LOR = Op('LOR', lambda a, b: bool(a) or bool(b))


class World:
    def __init__(self, size):
        self.size = size
        self.max_collectives = 10 ** 9
        self.ncoll = 0

    # -- running ranks ----------------------------------------------
    def run(self, fn):
        """fn(rank) on every rank; returns list of results; raises rank errors."""
        n = self.size
        self.ncoll = 0
        self.comms = {}
        self.results = [None] * n
        self.errors = [None] * n
        self.done = [False] * n
        self.waiting = [None] * n       # collective slot a rank waits on
        self.killed = False
        if n == 1:
            self.cur = 0
            try:
                self.results[0] = fn(0)
            finally:
                self.cur = None
            return self.results
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.main = threading.Semaphore(0)
        ths = [threading.Thread(target=self._thread, args=(r, fn), daemon=True) for r in range(n)]
        for t in ths:
            t.start()
        self.cur = 0
        self.sems[0].release()
        self.main.acquire()
        # one of: all done, an error, deadlock
        self.killed = True
        for r in range(n):
            if not self.done[r]:
                self.sems[r].release()
        for t in ths:
            t.join()
        err = None
        for e in self.errors:
            if e is None or isinstance(e, _Kill):
                continue
            if err is None or isinstance(e, (PathAbort, Inconclusive, Nondeterminism)):
                err = e
        if err is not None:
            raise err
        return self.results

    def _thread(self, r, fn):
        self.sems[r].acquire()
        try:
            if self.killed:
                raise _Kill()
            self.results[r] = fn(r)
        except BaseException as e:
            if self.errors[r] is None:
                self.errors[r] = e
            self.done[r] = True
            if not self.killed:
                self.killed = True
                self.main.release()
            return
        self.done[r] = True
        self._next()

    def _next(self):
        """Hand the token to the lowest runnable rank."""
        for r in range(self.size):
            if not self.done[r] and self.waiting[r] is None:
                self.cur = r
                self.sems[r].release()
                return
        if not all(self.done):
            w = [r for r in range(self.size) if not self.done[r]]
            d = [r for r in range(self.size) if self.done[r]]
            names = {r: self.waiting[r] for r in w}
            for r in w:
                if self.errors[r] is None:
                    self.errors[r] = Deadlock(f'ranks {w} wait in {names} while ranks {d} have returned')
                    break
        self.main.release()

    def comm(self, rank, key='world', ranks=None):
        return Comm(self, rank, key, ranks)


class _Slot:
    def __init__(self):
        self.name = None
        self.args = {}
        self.out = None


class Comm:
    def __init__(self, world, rank, key, ranks=None):
        self.world, self._key = world, key
        self._ranks = list(ranks) if ranks is not None else list(range(world.size))
        self._wrank = rank
        self._rank = self._ranks.index(rank)
        self._count = 0

    def __deepcopy__(self, memo):
        return self

    @property
    def size(self):
        return len(self._ranks)

    @property
    def rank(self):
        return self._rank

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return len(self._ranks)

    def Dup(self):
        self._dups = getattr(self, '_dups', 0) + 1
        return Comm(self.world, self._wrank, (self._key, 'dup', self._dups), self._ranks)

    def Create_cart(self, dims, periods=None, reorder=False):
        return self.Dup()

    def _coll(self, name, arg, compute):
        w = self.world
        w.ncoll += 1
        if w.ncoll > w.max_collectives * w.size:
            raise Deadlock('no progress: collective budget exhausted (livelock)')
        i = self._count
        self._count += 1
        key = (self._key, i)
        slot = w.comms.get(key)
        if slot is None:
            slot = w.comms[key] = _Slot()
            slot.name = name
        if slot.name != name:
            raise Deadlock(f'collective mismatch: {slot.name} / {name}')
        slot.args[self._rank] = arg
        if len(slot.args) == len(self._ranks):
            slot.out = compute([slot.args[r] for r in range(len(self._ranks))])
            del w.comms[key]
            for r in self._ranks:
                if r != self._wrank and w.waiting[r] is slot:
                    w.waiting[r] = None
        else:
            w.waiting[self._wrank] = slot
            w.sems[self._wrank]
            w._next()
            w.sems[self._wrank].acquire()
            if w.killed:
                raise _Kill()
        return slot.out[self._rank]

    # object collectives
    def alltoall(self, sendobj):
        sendobj = list(sendobj)
        if len(sendobj) != self.size:
            raise ValueError('alltoall: wrong number of items')
        return self._coll('alltoall', sendobj, lambda a: [
            [_pickle(a[s][d]) for s in range(len(a))] for d in range(len(a))])

    def allgather(self, obj):
        return self._coll('allgather', obj, lambda a: [[_pickle(x) for x in a] for _ in a])

    def gather(self, obj, root=0):
        return self._coll('gather', obj, lambda a: [[_pickle(x) for x in a] if r == root else None
                                                   for r in range(len(a))])

    def bcast(self, obj, root=0):
        return self._coll('bcast', obj, lambda a: [_pickle(a[root]) for _ in a])

    def scatter(self, obj, root=0):
        return self._coll('scatter', obj, lambda a: [_pickle(a[root][r]) for r in range(len(a))])

    def _reduce(self, a, op):
        acc = a[0]
        for x in a[1:]:
            acc = op(acc, x)
        return acc

    def allreduce(self, obj, op=SUM):
        return self._coll('allreduce', obj, lambda a: [self._reduce(a, op)] * len(a))

    def reduce(self, obj, op=SUM, root=0):
        return self._coll('reduce', obj, lambda a: [self._reduce(a, op) if r == root else None
                                                   for r in range(len(a))])

    def Barrier(self):
        return self._coll('Barrier', None, lambda a: [None] * len(a))

    barrier = Barrier

    # buffer collectives
    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        def f(a):
            n = {len(x[0]) for x in a}
            if len(n) != 1:
                raise Deadlock(f'Reduce: different message sizes {sorted(n)}')
            k = n.pop()
            out = [self._reduce([x[0][i] for x in a], _ELEM.get(op.name, op)) for i in range(k)]
            if len(a[root][1]) < k:
                raise ValueError('Reduce: message truncated')
            for i in range(k):
                a[root][1][i] = out[i]
            return [None] * len(a)
        return self._coll('Reduce', (sendbuf, recvbuf), f)

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        def f(a):
            k = len(a[0][0])
            out = [self._reduce([x[0][i] for x in a], op) for i in range(k)]
            for x in a:
                for i in range(k):
                    x[1][i] = out[i]
            return [None] * len(a)
        return self._coll('Allreduce', (sendbuf, recvbuf), f)

    def Alltoall(self, sendbuf, recvbuf):
        def f(a):
            n = len(a)
            for d in range(n):
                rb = a[d][1].reshape(n, -1)
                for s in range(n):
                    sb = a[s][0].reshape(n, -1)
                    if sb.shape[1] != rb.shape[1]:
                        raise ValueError('Alltoall: message size mismatch')
                    rb[s, :] = sb[d, :]
            return [None] * n
        return self._coll('Alltoall', (sendbuf, recvbuf), f)

    def Alltoallv(self, sendbuf, recvbuf):
        def norm(b):
            buf = b[0]
            cd = b[1]
            counts, displs = cd if isinstance(cd, (tuple, list)) and len(cd) == 2 and hasattr(cd[0], '__len__') else (cd, None)
            counts = [int(x) for x in counts]
            if displs is None:
                displs = [sum(counts[:i]) for i in range(len(counts))]
            return buf, counts, [int(x) for x in displs]

        def f(a):
            n = len(a)
            for d in range(n):
                rb, rc, rd = norm(a[d][1])
                for s in range(n):
                    sb, sc, sd = norm(a[s][0])
                    if sc[d] > rc[s]:
                        raise ValueError(f'Alltoallv: message truncated {s}->{d}: {sc[d]} > {rc[s]}')
                    if rd[s] + sc[d] > len(rb) or sd[d] + sc[d] > len(sb):
                        raise ValueError('Alltoallv: buffer overrun')
                    rb[rd[s]: rd[s] + sc[d]] = sb[sd[d]: sd[d] + sc[d]]
            return [None] * n
        return self._coll('Alltoallv', (sendbuf, recvbuf), f)


def _pickle(x):
    return copy.deepcopy(x)


def make_module(world_comm=None):
    m = types.ModuleType('mpi4py')
    M = types.ModuleType('mpi4py.MPI')
    for op in (MIN, MAX, SUM, PROD, LAND, LOR):
        setattr(M, op.name, op)
    M.Comm = M.Intracomm = M.Cartcomm = Comm
    M.Op = Op
    M.COMM_WORLD = world_comm
    M.COMM_NULL = None
    M.DOUBLE, M.FLOAT, M.INT, M.LONG, M.INT64_T, M.LONG_LONG = 'd', 'f', 'i', 'l', 'q', 'q'
    import time
    M.Wtime = time.time
    m.MPI = M
    return m, M
