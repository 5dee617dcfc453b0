"""Common parts of the harnesses over a context with shared spaces."""
import types
from lib.harness import Harness
from lib import topo
from lib.pysym import ops
from lib.pysym.ops import conj, disj, neg, eq

SPACE_MODULES = ('core', 'random', 'geometry', 'space', 'context')


def val(x):
    return getattr(x, 'z', x)


def in_box(p, lo, hi, nd):
    """lo[i] <= p[i] < hi[i]"""
    return conj([c for i in range(nd) for c in (val(p[i] >= lo[i]), val(p[i] < hi[i]))])


def near(p, local, bounds, periodic, buf, nd, cont=False):
    """p lies within the buffer distance of the local bounds (wrapped if periodic)."""
    cs = []
    for i in range(nd):
        lo, hi = local[2 * i] - buf, local[2 * i] + local[2 * i + 1] + buf
        alts = [conj([val(p[i] >= lo), val(p[i] < hi)])]
        if periodic:
            ext = bounds[2 * i + 1]
            for s in (-ext, ext):
                alts.append(conj([val(p[i] + s >= lo), val(p[i] + s < hi)]))
        cs.append(disj(alts))
    return conj(cs)


def pick(c):
    """Truth of a condition on the current path (forks in a symbolic run)."""
    if isinstance(c, bool):
        return c
    from lib.pysym.proxies import SymBool
    return bool(SymBool(c))


def make_agent_class(r4):
    class A(r4.core.Agent):
        def __init__(self, id, type, rank, state):
            super().__init__(id, type, rank)
            self.state = state

        def save(self):
            return (self.uid, self.state)

        def update(self, state):
            self.state = state

    def restore(data):
        uid = data[0]
        return A(uid[0], uid[1], uid[2], data[1])
    return A, restore


class SpaceHarness(Harness):
    """n ranks with one shared grid or continuous space."""
    modules = SPACE_MODULES
    n = 2
    bounds = [0, 8, 0, 0, 0, 0]
    periodic = False
    buffer = 1
    cspace = False

    @property
    def ranks(self):
        return self.n

    def stubs(self, env):
        from lib import spacestub
        return {'repast4py._space': spacestub.make()}

    @property
    def nd(self):
        return 1 if self.bounds[3] == 0 else (2 if self.bounds[5] == 0 else 3)

    def make_space(self, env, comm, name='space', occupancy=0, cspace=None):
        r4 = env.r4
        bb = r4.geometry.BoundingBox(*self.bounds)
        b = r4.space.BorderType.Periodic if self.periodic else r4.space.BorderType.Sticky
        if self.cspace if cspace is None else cspace:
            return r4.space.SharedCSpace(name, bb, b, r4.space.OccupancyType(occupancy), self.buffer, comm, 100)
        return r4.space.SharedGrid(name, bb, b, r4.space.OccupancyType(occupancy), self.buffer, comm)

    def locals_(self, env, space):
        """Local bounds of every rank."""
        return [tuple(int(v) for v in x) for x in env.comm.allgather(tuple(space.get_local_bounds()))]

    def pos(self, env, name, box):
        """Any position inside box (min, extent per dimension)."""
        out = []
        for i in range(3):
            if i >= self.nd:
                out.append(0)
            elif self.cspace:
                # dyadic coordinates: exact in double arithmetic
                out.append(env.tick(f'{name}.{i}', box[2 * i], box[2 * i] + box[2 * i + 1], 4))
                env.assume(val(out[-1] < box[2 * i] + box[2 * i + 1]))
            else:
                out.append(env.int(f'{name}.{i}', box[2 * i], box[2 * i] + box[2 * i + 1] - 1))
        return out

    def point(self, env, p, cspace=None):
        return (env.r4.space.ContinuousPoint if (self.cspace if cspace is None else cspace) else env.r4.space.DiscretePoint)(*p)

    def owner(self, p, locs):
        for r, l in enumerate(locs):
            if pick(in_box(p, [l[0], l[2], l[4]], [l[0] + l[1], l[2] + l[3], l[4] + l[5]], self.nd)):
                return r
        return None

    def loc(self, space, a):
        pt = space.get_location(a)
        return None if pt is None else [pt.x, pt.y, pt.z]

    def cfgkeys(self):
        if not getattr(self, 'spaces', None):
            return [self.cfgkey()]
        return [topo.cfg(self.n, self.bounds, self.periodic, self.buffer, k == 'cspace') for k in self.spaces]

    def cfgkey(self):
        return topo.cfg(self.n, self.bounds, self.periodic, self.buffer, self.cspace)


def cfgs_of(jobs):
    return [c for j in jobs for c in j.cls(pin=j.pin, **j.params).cfgkeys()]


class Batch:
    """Collects conditions per label; one solver query for all of them."""

    def __init__(self, env, known=None):
        self.env, self.items, self.known = env, {}, known

    def check(self, cond, label, detail):
        if self.env.replaying:
            return
        c = cond() if callable(cond) else cond
        c = getattr(c, 'z', c)
        if isinstance(c, bool) and c is False:
            self.env.check(False, label, detail, self.known)
        if detail.__closure__:
            # the values of the loop variables now
            detail = types.FunctionType(detail.__code__, detail.__globals__, detail.__name__, detail.__defaults__,
                                        tuple(types.CellType(x.cell_contents) for x in detail.__closure__))
        self.items.setdefault(label, []).append((c, detail))

    def done(self):
        for label, l in self.items.items():
            self.env.check(conj([c for c, _ in l]), label, lambda: ' | '.join(str(d()) for c, d in l if not (isinstance(c, bool) and c))[:1800], self.known)
