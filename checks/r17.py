"""R17: spaces hold agents and points while they contain them and release them afterwards (instrumented C++)."""
import gc
import sys
import weakref
from lib.harness import Harness
from lib.runner import Job
from lib.llsym.lltypes import conj
from checks.r12 import LBL


class Refs(Harness):
    """kind grid|cont|sgrid|scont (shared ones: as rank 0 of n). Every step is chosen symbolically from ops; the references to
    the agents and to the points of earlier lookups are counted after every step and after the space is gone."""
    engine = 'll'
    ranks = 1
    native_leaks = True
    kind = 'grid'
    occ = 'Multiple'
    border = 'Sticky'
    n = 2
    agents = 2
    steps = 3
    threshold = 1
    ops = ('move', 'remove', 'add', 'look')
    script = None
    k = 0
    reach = 1

    def make(self, env):
        sp = env.r4.space
        b, o = getattr(sp.BorderType, self.border), getattr(sp.OccupancyType, self.occ)
        box = []
        for i in range(3):
            box += [self.org[i], self.ext[i]] if i < len(self.ext) else [0, 0]
        bb = env.r4.geometry.BoundingBox(*box)
        if self.kind == 'grid':
            return sp.Grid('s', bb, b, o)
        if self.kind == 'cont':
            return sp.ContinuousSpace('s', bb, b, o, self.threshold)
        # the bounds of all ranks are gathered: the others first
        def one(r):
            if self.kind == 'sgrid':
                return sp.SharedGrid('s', bb, b, o, 1, env.comm)
            return sp.SharedCSpace('s', bb, b, o, 1, env.comm, self.threshold)
        if env.ll:
            for r in range(1, self.n):
                env.mpi(self.n, r)
                one(r)
            env.mpi(self.n, 0)
        return one(0)

    def run(self, env):
        sp, core = env.r4.space, env.r4.core
        disc = 'grid' in self.kind
        nd = len(self.ext)

        class P(sp.DiscretePoint if disc else sp.ContinuousPoint):
            __slots__ = ()
        gc.freeze()
        q = [self.org[i] if i < nd else 0 for i in range(3)]
        comm0 = sys.getrefcount(env.comm)
        types0 = sys.getrefcount(P)
        s = self.make(env)
        infos = [t for t in s._get_buffer_data()] if self.kind[0] == 's' else []
        ags = [core.Agent(i, 0, 0) for i in range(self.agents)]
        base = [sys.getrefcount(ags[i]) for i in range(self.agents)]
        ubase = [sys.getrefcount(ags[i].uid) for i in range(self.agents)]
        inside, located, points, iters, log = set(), set(), [], [], []
        gone = []

        def points_of(i):
            p = s.get_location(ags[i])
            if p is not None and not any(p is x for x, _ in points):
                points.append((p, i))
            p = None

        def judge(there):
            for i in range(self.agents):
                extra = sys.getrefcount(ags[i]) - base[i]
                where = lambda: f'{self.kind} {self.occ} {log}: {extra} references to agent {i}'
                env.check(extra >= 1 if i in there else extra == 0, 'agent', where)
                u = sys.getrefcount(ags[i].uid) - ubase[i]
                env.check(u >= 0 if i in there else u == 0, 'uid', lambda: f'{self.kind} {self.occ} {log}: {u} references to the id of agent {i}')
            for j in range(len(points)):
                r = sys.getrefcount(points[j][0]) - 2      # the tuple and the argument
                live = points[j][1] in there and j not in gone
                env.check(r >= 1 if live else r == 0, 'point', lambda: f'{self.kind} {self.occ} {log}: {r} references to point {j} of agent {points[j][1]}')
        for j in range(len(self.script) if self.script else self.steps):
            if self.script:
                op, i = self.script[j]
            else:
                op = self.ops[env.choice_range(f'op{j}', 0, len(self.ops) - 1)]
                i = env.choice_range(f'agent{j}', 0, self.agents - 1)
            log.append(f'{op} {i}')
            if op == 'move':
                c = []
                for d in range(nd):
                    lo, hi = self.org[d], self.org[d] + self.ext[d] + self.reach
                    c.append(env.int(f't{j}{LBL[d]}', lo, hi - 1) if disc else env.dbl_raw(f't{j}{LBL[d]}', lo << self.k, (hi << self.k) - 1, self.k))
                c += [0] * (3 - nd)
                log[-1] += f' {c}'
                t = P(*c)
                try:
                    s.move(ags[i], t)
                except RuntimeError:
                    env.check(i not in inside, 'error', lambda: f'{log}: move failed')
                t = None
                points_of(i)
            elif op == 'remove':
                s.remove(ags[i])
                inside.discard(i)
                gone += [x for x in range(len(points)) if points[x][1] == i]
            elif op == 'add':
                s.add(ags[i])
                inside.add(i)
            elif op == 'look':         # results that are dropped at once
                c = P(*q)
                s.get_agent(c)
                for a in s.get_agents(c):
                    s.contains(a)
                it = s.get_agents(c)
                next(it, None)
                iter(it)
                next(it, None)
                it = a = None
                if self.kind[0] == 's':
                    s.get_num_agents(c)
                    s.get_local_bounds()
                    for t in s._get_oob():
                        t = None
                if not disc:
                    b = env.r4.geometry.BoundingBox(*[v for d in range(3) for v in ((self.org[d], self.ext[d]) if d < nd else (0, 0))])
                    for a in s.get_agents_within(b):
                        a = None
                c = None
            elif op == 'clear':
                s._clear_oob()
            judge(inside)
        # iterators that outlive the space
        c = P(*q)
        it = s.get_agents(c)
        c = None
        if self.kind[0] == 's':
            ref = weakref.ref(s)
            s = None
            gc.collect()        # the Python layer keeps bound methods of the space in the space
            kept = ref() is not None
        else:
            kept = sys.getrefcount(s) != 2
            s = None
        env.check(not kept, 'space', lambda: f'{self.kind} {self.occ} {log}: the space is not destroyed')
        gone = range(len(points))
        ids = [a.id for a in it]
        a = it = None
        judge(())
        for j in range(len(infos)):
            env.check(sys.getrefcount(infos[j]) == 2, 'neighbor', lambda: f'{self.kind}: {sys.getrefcount(infos[j])} references to the buffer information')
        t = infos = None
        env.check(sys.getrefcount(env.comm) == comm0, 'communicator', lambda: f'{self.kind}: {sys.getrefcount(env.comm) - comm0} references to the communicator are kept')
        points.clear()
        left = sys.getrefcount(P) - types0
        env.check(left == 0, 'points', lambda: f'{self.kind} {self.occ} {log}: {left} points are kept')
        return [log, ids]


class Topology(Harness):
    """A topology releases what it allocated."""
    engine = 'll'
    ranks = 1
    native_leaks = True

    def run(self, env):
        sp = env.r4.space
        b = []
        for d in range(3):
            b += [self.org[d], self.ext[d]] if d < len(self.ext) else [0, 0]
        comm0 = sys.getrefcount(env.comm)
        if env.ll:
            env.mpi(self.n, self.rank)
        t = sp.CartesianTopology(env.comm, env.r4.geometry.BoundingBox(*b), self.periodic)
        t.local_bounds
        t.coordinates
        t.procs_per_dim
        infos = [x for x in t.compute_buffer_nghs(1)]
        t = x = None
        for j in range(len(infos)):
            env.check(sys.getrefcount(infos[j]) == 2, 'neighbor', lambda: f'{sys.getrefcount(infos[j])} references to the buffer information')
        env.check(sys.getrefcount(env.comm) == comm0, 'communicator', lambda: f'topology: {sys.getrefcount(env.comm) - comm0} references to the communicator are kept')
        return [len(infos) if self.n == 1 else 0]


FUNCTIONS = ['space.h: BaseSpace add/remove/move/destructor', 'occupancy.h: put/remove of both accessors', 'space.cpp: decref', 'SpatialTree.h: MOItems, SOItems', 'core.h: TAgentIter', 'distributed_space.h/.cpp: DistributedCartesianSpace, CartesianTopology',
             'coremodule.cpp, spacemodule.cpp: all functions of Agent, points, iterators and spaces that the steps call (compiled from the working tree, executed as instrumented LLVM IR)']
BOUNDS = {'quick': ['Grid, ContinuousSpace, SharedGrid and SharedCSpace (rank 0 of 2), single and multiple occupancy, 1D to 3D',
                    '3 symbolic steps out of move (symbolic target, in the bounds and one beyond), remove, add, lookups on 2 agents, any of them also on agents that are not in the space; scripts of up to 6 steps',
                    'reference counts of the agents, their ids, their points, the communicator, the neighbor tuples and of all points of the run; blocks allocated by the compiled code; every access to a released block']}
BOUNDS['thorough'] = BOUNDS['quick'] + ['4 symbolic steps in 1D']
OUTSIDE = ['memory of numpy and MPI', 'references kept by the Python layer', 'reinitialization of an existing object by a second call of __init__']
ASSUMPTIONS = ['clang -O1 LLVM IR of the sources equals their meaning', 'CPython/numpy are not encoded: they run as they are']
LABELS = ['agent', 'uid', 'point', 'points', 'space', 'error', 'communicator', 'neighbor', 'native-leak', 'released-object']


def jobs(tier):
    J = []
    top = tier == 'thorough'
    org, ext = [-1, 2, 1], [4, 4, 4]
    for kind in ('grid', 'cont', 'sgrid', 'scont'):
        for occ in ('Multiple', 'Single'):
            for nd in (1, 2, 3):
                p = dict(kind=kind, occ=occ, org=org[:nd], ext=ext[:nd] if nd < 3 else [2, 2, 2], reach=1 if nd == 1 else 0)
                if nd == 1 or nd == 2 and kind[0] != 's':
                    for f in range(4):
                        J.append(Job(Refs, dict(p, steps=4 if top and nd == 1 else 3, script=None, ext=ext[:1] if nd == 1 else [2, 2]), pin=dict(op0=f)))
                S = [('add', 0), ('add', 1), ('move', 0), ('look', 0), ('move', 1), ('remove', 0)]
                J.append(Job(Refs, dict(p, script=S)))
                S = [('add', 0), ('move', 0), ('move', 0), ('add', 0), ('look', 0)]
                J.append(Job(Refs, dict(p, script=S)))
                if nd < 3:
                    S = [('add', 0), ('move', 0), ('add', 1), ('move', 1), ('remove', 0), ('add', 0)] + [('move', 0)] * (nd == 1)
                    J.append(Job(Refs, dict(p, script=S)))
                if kind[0] == 's':
                    J.append(Job(Refs, dict(p, script=[('add', 0), ('move', 0), ('clear', 0), ('look', 0), ('move', 0)] if nd < 3 else [('add', 0), ('move', 0), ('clear', 0), ('remove', 0)])))
    for n in (1, 2, 4):
        for nd in (1, 2, 3):
            for per in (False, True):
                J.append(Job(Topology, dict(n=n, rank=n - 1, org=org[:nd], ext=[8, 8, 8][:nd], periodic=per)))
    return J
