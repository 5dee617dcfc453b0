"""Contract of the compiled _space module, over possibly symbolic coordinates.

The compiled code itself is decided by the C++ checks (R11 - R17); here it is replaced by
what those properties say it does, so that the Python layers above can be executed symbolically."""
import types
import numpy as np
from collections import namedtuple
from . import topo as T
from .pysym import ops
from .pysym.proxies import Sym

BB = namedtuple('BoundingBox', ['xmin', 'xextent', 'ymin', 'yextent', 'zmin', 'zextent'])


def _obj(c):
    a = np.empty(3, dtype=object)
    a[0], a[1], a[2] = c
    return a


class _Point:
    def __init__(self, x, y, z=0):
        self._c = _obj((self._conv(x), self._conv(y), self._conv(z)))

    x = property(lambda s: s._c[0])
    y = property(lambda s: s._c[1])
    z = property(lambda s: s._c[2])

    @property
    def coordinates(self):
        return self._c

    def _reset(self, t):
        for i in range(3):
            self._c[i] = self._conv(t[i])

    def _reset1D(self, x):
        self._c[0] = self._conv(x)

    def _reset2D(self, x, y):
        self._c[0], self._c[1] = self._conv(x), self._conv(y)

    def _reset3D(self, x, y, z):
        self._c[0], self._c[1], self._c[2] = self._conv(x), self._conv(y), self._conv(z)

    def _reset_from_array(self, a):
        if a.ndim != 1:
            raise RuntimeError('can only be reset from a 1D numpy array')
        for i in range(min(3, len(a))):
            self._c[i] = self._conv(a[i])

    def __eq__(self, o):
        if type(o) is not type(self):
            return NotImplemented
        return bool(_sb(ops.eq(list(self._c), list(o._c))))

    def __hash__(self):
        raise TypeError('unhashable')

    def __repr__(self):
        return f'{type(self).__name__}({self._c[0]}, {self._c[1]}, {self._c[2]})'


def _sb(z):
    from .pysym.proxies import SymBool
    return z if isinstance(z, bool) else SymBool(z)


class DiscretePoint(_Point):
    @staticmethod
    def _conv(v):
        if isinstance(v, Sym):
            return v
        if isinstance(v, (float, np.floating)):
            raise TypeError("integer argument expected, got float")
        return int(v)


class ContinuousPoint(_Point):
    @staticmethod
    def _conv(v):
        return v if isinstance(v, Sym) else float(v)


def transform(c, bounds, periodic, cont):
    """Border policy: nearest valid / congruent coordinate; unused dimensions become their minimum."""
    nd = 1 if bounds[3] == 0 else (2 if bounds[5] == 0 else 3)
    out = []
    for i in range(3):
        mn, ex = bounds[2 * i], bounds[2 * i + 1]
        v = c[i]
        if i >= nd:
            out.append(0 if not cont else 0.0)
            continue
        if periodic:
            if bool(v >= mn) and bool(v < mn + ex):
                out.append(v)
            elif bool(v >= mn + ex) and bool(v < mn + 2 * ex):
                out.append(v - ex)
            elif bool(v < mn) and bool(v >= mn - ex):
                out.append(v + ex)
            else:
                out.append((v - mn) % ex + mn)
        else:
            hi = mn + ex - (1e-8 if cont else 1)
            if bool(v < mn):
                out.append(mn)
            elif bool(v > hi):
                out.append(hi)
            else:
                out.append(v)
    return [float(x) if cont and not isinstance(x, Sym) else x for x in out]


class _Borders:
    periodic = False

    def __init__(self, bounds):
        self._b = tuple(bounds)

    def _transform(self, pt, tpt):
        tpt._reset(transform(pt._c, self._b, self.periodic, False))


class GridStickyBorders(_Borders):
    pass


class GridPeriodicBorders(_Borders):
    periodic = True


def contains(box, c):
    """BoundingBox.contains as a formula; box = (min, extent) per dimension."""
    nd = 1 if box[3] == 0 else (2 if box[5] == 0 else 3)
    t = []
    for i in range(nd):
        t.append(getattr(c[i] >= box[2 * i], 'z', c[i] >= box[2 * i]))
        t.append(getattr(c[i] < box[2 * i] + box[2 * i + 1], 'z', c[i] < box[2 * i] + box[2 * i + 1]))
    return ops.conj(t)


class _Shared:
    CONT = False
    POINT = DiscretePoint

    def _setup(self, name, bounds, borders, occupancy, buffer_size, comm):
        self._name, self._bounds = name, tuple(int(x) for x in bounds)
        self._periodic, self._single = int(borders) == 1, int(occupancy) == 1
        self._comm = comm
        self._cart = comm.Dup()
        tab = T.table(T.cfg(comm.size, self._bounds, self._periodic, buffer_size, self.CONT))
        self._tab = tab
        self._rank = comm.rank
        self._local = BB(*tab[comm.rank]['slocal'])
        self._order = [r for r in range(comm.size) if r != comm.rank]
        self._map = {}      # uid -> item [agent, point or None]
        self._oob = {}      # uid -> (uid, rank, coordinates of the internal point)
        self._cells = []    # items in arrival order; an item keeps its place until it moves or is removed

    name = property(lambda s: s._name)
    _cart_comm = property(lambda s: s._cart)

    def get_local_bounds(self):
        return self._local

    def add(self, agent):
        # an agent that is present stays where it is, another one with the same id is replaced
        it = self._map.get(agent.uid)
        if it is not None:
            if it[0] is agent:
                return True
            self.remove(it[0])
        self._map[agent.uid] = [agent, None]
        return True

    def remove(self, agent):
        uid = agent.uid if hasattr(agent, 'uid') else agent
        self._oob.pop(uid, None)
        it = self._map.pop(uid, None)
        if it is None:
            return False
        self._cells = [i for i in self._cells if i is not it]
        return True

    def contains(self, agent):
        return agent.uid in self._map

    def get_location(self, agent):
        it = self._map.get(agent.uid)
        return it[1] if it else None

    def _at(self, it, c):
        return it[1] is not None and bool(_sb(ops.eq(list(it[1]._c), list(c))))

    def move(self, agent, pt):
        if not isinstance(pt, self.POINT):
            raise TypeError(f'argument 2 must be {self.POINT.__name__}')
        it = self._map.get(agent.uid)
        if it is None:
            raise RuntimeError(f'Error moving agent {agent.uid}: agent is not in the space')
        c = transform(pt._c, self._bounds, self._periodic, self.CONT)
        if not self._at(it, c):
            if self._single and any(self._at(i, c) for i in self._cells):
                return None
            self._cells = [i for i in self._cells if i is not it]
            if it[1] is None:
                it[1] = self.POINT(*c)
            else:
                it[1]._reset(c)
            self._cells.append(it)
        p = it[1]
        self._oob.pop(agent.uid, None)
        if not bool(_sb(contains(self._local, p._c))):
            for r in self._order:
                if bool(_sb(contains(self._tab[r]['slocal'], p._c))):
                    self._oob[agent.uid] = (agent.uid, r, p._c)
                    break
        return p

    def get_agents(self, pt):
        return iter([i[0] for i in self._cells if self._at(i, pt._c)])

    def get_num_agents(self, pt, agent_type=-1):
        return len([a for a in self.get_agents(pt) if agent_type in (-1, a.uid[1])])

    def get_agent(self, pt):
        for i in self._cells:
            if self._at(i, pt._c):
                return i[0]
        return None

    def _get_oob(self):
        return iter([self._oob[k] for k in sorted(self._oob)])

    def _clear_oob(self):
        self._oob.clear()

    def _get_buffer_data(self):
        return iter([(r, tuple(b)) for r, b in self._tab[self._rank]['buf']])

    def _move_oob_agent(self, agent, pt_arr):
        p = self.POINT(0, 0, 0)
        p._reset_from_array(np.asarray(pt_arr))
        self.move(agent, p)


class SharedGrid(_Shared):
    def __init__(self, name, bounds, borders, occupancy, buffer_size, comm):
        self._setup(name, bounds, borders, occupancy, buffer_size, comm)


class SharedContinuousSpace(_Shared):
    CONT = True
    POINT = ContinuousPoint

    def __init__(self, name, bounds, borders, occupancy, buffer_size, comm, tree_threshold):
        self._setup(name, bounds, borders, occupancy, buffer_size, comm)

    def get_agents_within(self, box):
        return iter([i[0] for i in self._cells if bool(_sb(contains(tuple(box), i[1]._c)))])


class CartesianTopology:
    """Topology table of the real extension. With a symbolic origin, the table of the same extents at origin 0
    moved by the origin (that the native computation moves along with the origin is part of R12/R13)."""
    BUFFERS = None

    def __init__(self, comm, bounds, periodic, procs_per_dim=None):
        self.comm = comm.Dup()
        b = tuple(bounds)
        self._o = [0, 0, 0]
        if any(isinstance(x, Sym) for x in b):
            self._o = [b[0], b[2] if b[3] else 0, b[4] if b[5] else 0]
            b = (0, b[1], 0, b[3], 0, b[5])
        self._b, self._p, self._n = b, bool(periodic), comm.size
        self._rank = comm.rank

    def _t(self, buffer):
        return T.table(T.cfg(self._n, self._b, self._p, buffer))[self._rank]

    def _any(self):
        import json
        for k, t in T.TABLES.items():
            n, b, p, buf, cs = json.loads(k)
            if n == self._n and tuple(b) == self._b and p == self._p:
                return t[self._rank]
        raise KeyError('no table')

    procs_per_dim = property(lambda s: tuple(s._any()['procs']))
    coordinates = property(lambda s: tuple(s._any()['coords']))

    @property
    def local_bounds(self):
        b = self._any()['local']
        return BB(*[x + self._o[i // 2] if i % 2 == 0 else x for i, x in enumerate(b)])

    def compute_buffer_nghs(self, buffer_size):
        return iter([(r, tuple(x + self._o[i // 2] for i, x in enumerate(b))) for r, b in self._t(buffer_size)['nghs']])


def make():
    m = types.ModuleType('repast4py._space')
    for c in (DiscretePoint, ContinuousPoint, GridStickyBorders, GridPeriodicBorders, SharedGrid,
              SharedContinuousSpace, CartesianTopology):
        setattr(m, c.__name__, c)
    m.Grid = type('Grid', (), {})
    m.ContinuousSpace = type('ContinuousSpace', (), {})
    return m
