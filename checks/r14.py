"""R14: out-of-bounds agents are reported exactly once, to the rank that owns their location (instrumented C++)."""
from lib.harness import Harness
from lib.runner import Job
from lib.llsym.lltypes import conj, neg
from checks.r12 import global_box, box, LBL


class Route(Harness):
    """n ranks; rank act performs `steps` operations on `agents` agents; every operation is chosen symbolically from ops.
    ext: number or interval per dimension; targets up to `reach` beyond the global bounds (cont: multiples of 2^-k)."""
    engine = 'll'
    omag = 1 << 20
    kind = 'grid'
    periodic = False
    occ = 'Multiple'
    buffer = 1
    agents = 1
    act = 0
    ops = ('move',)
    reach = 3
    k = 2
    script = None

    @property
    def ranks(self):
        return self.n

    def make(self, env, bb):
        sp = env.r4.space
        b = sp.BorderType.Periodic if self.periodic else sp.BorderType.Sticky
        o = getattr(sp.OccupancyType, self.occ)
        if self.kind == 'grid':
            return sp.SharedGrid('g', bb, b, o, self.buffer, env.comm)
        return sp.SharedCSpace('c', bb, b, o, self.buffer, env.comm, 2)

    def target(self, env, name, org, ext):
        sp = env.r4.space
        c = []
        for i in range(3):
            if i >= self.nd:
                c.append(0)
            elif self.kind == 'grid':
                if isinstance(self.ext[i], (list, tuple)):
                    d = env.int(f'{name}{LBL[i]}', -self.omag, 3 * self.omag)
                else:
                    d = env.int(f'{name}{LBL[i]}', -self.reach, self.ext[i] + self.reach)
                c.append(org[i] + d)
            else:
                c.append(env.dbl_raw(f'{name}{LBL[i]}', (self.org[i] - self.reach) << self.k, (self.org[i] + self.ext[i] + self.reach) << self.k, self.k))
        return (sp.DiscretePoint if self.kind == 'grid' else sp.ContinuousPoint)(*c)

    def oob(self, env, s):
        return [[list(t[0]), t[1], env.arr(t[2])] for t in s._get_oob()]

    def acting(self, env, s, org, ext):
        core = env.r4.core
        ags = [core.Agent(i, 0, self.act) for i in range(self.agents)]
        for a in ags:
            s.add(a)
        state = {i: None for i in range(self.agents)}     # index: None or location of the agents in the space
        log = [[None, dict(state), self.oob(env, s)]]
        for j in range(len(self.script) if self.script else self.steps):
            if self.script:
                op, i = self.script[j]
            else:
                op = self.ops[env.choice_range(f'op{j}', 0, len(self.ops) - 1)]
                i = env.choice_range(f'agent{j}', 0, self.agents - 1) if self.agents > 1 and op != 'clear' else 0
            if i not in state and op in ('move', 'synch', 'remove') or i in state and op == 'add':
                continue
            if op == 'move':
                r = s.move(ags[i], self.target(env, f't{j}', org, ext))
                if r is not None:
                    state[i] = env.arr(r.coordinates)
            elif op == 'synch':      # an agent that arrives from another rank is put at its location
                p = self.target(env, f't{j}', org, ext)
                c = env.arr(p.coordinates)
                s._move_oob_agent(ags[i], p.coordinates)
                c2 = env.arr(s.get_location(ags[i]).coordinates)
                state[i] = c2
            elif op == 'remove':
                s.remove(ags[i])
                del state[i]
            elif op == 'add':
                s.add(ags[i])
                state[i] = None
            else:
                s._clear_oob()
                state['cleared'] = j
            log.append([f'{op} {i}', dict(state), self.oob(env, s)])
            if op == 'clear':
                # the agents routed to another rank leave this one
                for e in log[-2][2]:
                    x = e[0][0]
                    if x in state:
                        s.remove(ags[x])
                        del state[x]
                log.append(['leave', dict(state), self.oob(env, s)])
        return log

    def run(self, env):
        n, nd = self.n, self.nd
        org, ext, b = [], [], []
        for i in range(3):
            sym = i < nd and isinstance(self.ext[i], (list, tuple))
            org.append(env.int(f'o{LBL[i]}', -self.omag, self.omag) if sym else self.org[i] if i < nd else 0)
            ext.append(env.int(f'e{LBL[i]}', *self.ext[i]) if sym else self.ext[i] if i < nd else 0)
            b += [org[i], ext[i]]
        bb = env.r4.geometry.BoundingBox(*b)
        lbs = env.per_rank(n, lambda r: box(self.make(env, bb).get_local_bounds()))

        def work(r):
            s = self.make(env, bb)
            return self.acting(env, s, org, ext) if r == self.act else None
        log = env.per_rank(n, work)[self.act]
        inside = lambda r, p: conj(*[conj(lbs[r][i][0] <= p[i], p[i] < lbs[r][i][0] + lbs[r][i][1]) for i in range(nd)])
        me = self.act
        for op, state, oob in log:
            where = lambda: f'rank {me}/{n} bounds {lbs} after {[x[0] for x in log]} at {op}: locations {state} routed {oob}'
            ids = [e[0] for e in oob]
            env.check(len({tuple(x) for x in ids}) == len(ids) and all(x[1:] == [0, me] for x in ids), 'once', where)
            ids = [x[0] for x in ids]
            env.check(all(x in state and state[x] is not None for x in ids), 'gone', where)
            for e in oob:
                loc = state.get(e[0][0])
                env.check(0 <= e[1] < n and e[1] != me, 'owner', where)
                env.check(inside(e[1], e[2]), 'owner', where)
                env.check(loc is None or conj(*[x == y for x, y in zip(e[2], loc)]), 'location', where)
            for a, loc in state.items():
                if a == 'cleared' or loc is None:
                    continue
                if op and op.startswith('clear'):
                    env.check(not oob, 'cleared', where)
                else:
                    env.check(inside(me, loc) if a not in ids else neg(inside(me, loc)), 'reported', where)
        return [lbs, [[x[0], x[2]] for x in log]]


FUNCTIONS = ['distributed_space.h: DistributedCartesianSpace::move, eraseOOB, remove, clearOOBData, getOOBData, getAllBounds, SharedGrid, SharedContinuousSpace', 'space.h, grid.h, cspace.h: add, move, remove', 'geometry.cpp: BoundingBox::contains',
             'spacemodule.cpp: SharedGrid_move/synchMove/getOOBData/clearOOBData and SharedCSpace_* (compiled from the working tree, executed as instrumented LLVM IR)']
BOUNDS = {'quick': ['one operation: 1 to 6 ranks, symbolic origins and extents up to 2^20, targets anywhere within 2^20 of the global bounds (grids)',
                    'sequences: 3 symbolic operations out of move, remove, add, clear, arrival on 1 or 2 agents, 2 to 4 ranks, single and multiple occupancy, sticky and periodic, symbolic targets up to 3 beyond the global bounds',
                    'continuous targets: multiples of 2^-2']}
BOUNDS['thorough'] = ['sequences of 4 operations', '3D with 8 ranks', '12 ranks']
OUTSIDE = ['agents of different ranks that move to the same point of a single occupancy space between two synchronizations', 'what Context.synchronize does with the entries (R07)']
ASSUMPTIONS = ['MPI_Dims_create is the real one; MPI_Cart_create/coords/rank/Allgather are simulated according to the MPI standard', 'clang -O1 LLVM IR of the sources equals their meaning']
LABELS = ['once', 'gone', 'owner', 'location', 'reported', 'cleared']


def jobs(tier):
    J = []
    top = tier == 'thorough'
    big = 1 << 20
    for n, nd in ((1, 1), (2, 1), (3, 1), (5, 1), (2, 2), (4, 2), (6, 2), (2, 3)) + (((8, 3), (12, 2), (12, 3)) if top else ()):
        for per in (False, True):
            acts = sorted({0, n // 2, n - 1})
            for act in acts:
                e = [(n, 4 * n)] * nd if per else [(n, big)] * nd
                if not per:
                    J.append(Job(Route, dict(n=n, nd=nd, ext=e, org=None, periodic=per, act=act, script=[('move', 0)])))
                for kind in ('grid', 'cont'):
                    J.append(Job(Route, dict(n=n, nd=nd, kind=kind, org=[-3, 2, 1][:nd], ext=[13, 11, 7][:nd], periodic=per, act=act,
                                             script=[('move', 0), ('move', 0)] if nd < 3 and n < 5 else [('move', 0)])))
    for n, nd in ((2, 1), (3, 1), (4, 2)):
        for kind in ('grid', 'cont'):
            for per in (False, True):
                act = n - 1 if per else 0
                p = dict(n=n, nd=nd, kind=kind, org=[-3, 2, 1][:nd], ext=[9, 8, 7][:nd], periodic=per, act=act)
                for first in (0, 4):
                    ops = ['move', 'remove', 'add', 'clear', 'synch']
                    J.append(Job(Route, dict(p, steps=4 if top else 3, ops=ops), pin={'op0': first}))
                for occ in ('Single', 'Multiple'):
                    J.append(Job(Route, dict(p, occ=occ, agents=2, script=[('move', 0), ('move', 1), ('move', 1)] if nd == 1 else [('move', 0), ('move', 1)])))
                    J.append(Job(Route, dict(p, occ=occ, agents=2, script=[('move', 0), ('move', 1), ('remove', 0), ('move', 1)] if nd == 1 else [('move', 0), ('move', 1), ('remove', 0)])))
                    J.append(Job(Route, dict(p, occ=occ, agents=2, script=[('move', 0), ('move', 1), ('clear', 0)])))
    return J
