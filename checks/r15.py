"""R15: locations and occupancy agree after any sequence of operations on a space (instrumented C++)."""
from lib.harness import Harness
from lib.runner import Job
from lib.llsym.lltypes import conj, disj, neg, ite
from checks.r12 import LBL


class Occupancy(Harness):
    """kind grid|cont|sgrid|scont; every step is an operation chosen symbolically from ops (or script) on a symbolic agent
    with a symbolic target. Targets: in the bounds, or up to `reach` outside of them (sticky and periodic grids).
    fresh: the point objects given to the space are reused for the next call."""
    engine = 'll'
    ranks = 1
    kind = 'grid'
    border = 'Sticky'
    occ = 'Multiple'
    agents = 2
    reach = 0
    k = 1
    ops = ('move', 'remove', 'add')
    script = None
    reuse = False

    def make(self, env):
        sp = env.r4.space
        b, o = getattr(sp.BorderType, self.border), getattr(sp.OccupancyType, self.occ)
        box = []
        for i in range(3):
            box += [self.org[i], self.ext[i]] if i < len(self.ext) else [0, 0]
        bb = env.r4.geometry.BoundingBox(*box)
        if self.kind == 'grid':
            return sp.Grid('s', bb, b, o)
        if self.kind == 'cont':
            return sp.ContinuousSpace('s', bb, b, o, 100)
        env.mpi(1, 0)
        if self.kind == 'sgrid':
            return sp.SharedGrid('s', bb, b, o, 1, env.comm)
        return sp.SharedCSpace('s', bb, b, o, 1, env.comm, 100)

    @property
    def discrete(self):
        return 'grid' in self.kind

    def coords(self, env, name, reach):
        c = []
        for i in range(len(self.ext)):
            lo, hi = self.org[i] - reach, self.org[i] + self.ext[i] + reach
            if self.discrete:
                c.append(env.int(name + LBL[i], lo, hi - 1))
            else:
                c.append(env.dbl_raw(name + LBL[i], lo << self.k, (hi << self.k) - 1, self.k))
        return c + [0] * (3 - len(c))

    def landed(self, c):
        """where the border policy puts c (discrete points)"""
        out = []
        for i in range(3):
            if i >= len(self.ext):
                out.append(0)
                continue
            lo, e = self.org[i], self.ext[i]
            if not self.reach:
                out.append(c[i])
            elif self.border == 'Sticky':
                out.append(ite(c[i] < lo, lo, ite(c[i] >= lo + e, lo + e - 1, c[i])))
            else:
                d = c[i] - lo
                out.append(ite(d < 0, c[i] + e, ite(d >= e, c[i] - e, c[i])))
        return out

    def observe(self, env, s, ags, P, q):
        """what the space says about the agents and about the point q"""
        locs = {}
        for i, a in ags.items():
            l = s.get_location(a)
            locs[i] = None if l is None else env.arr(l.coordinates)
        has = [int(s.contains(a)) for a in ags.values()]
        one = s.get_agent(P(*q))
        ids = [a.id for a in s.get_agents(P(*q))]
        num = [s.get_num_agents(P(*q)), s.get_num_agents(P(*q), agent_type=0), s.get_num_agents(P(*q), agent_type=1)] if self.kind[0] == 's' else None
        return [locs, has, None if one is None else one.id, ids, num]

    def run(self, env):
        sp, core = env.r4.space, env.r4.core
        P = sp.DiscretePoint if self.discrete else sp.ContinuousPoint
        s = self.make(env)
        ags = {i: core.Agent(i, i % 2, 0) for i in range(self.agents)}
        loc, arr = {}, {}          # the model: location and arrival of every agent in the space
        for i, a in ags.items():
            s.add(a)
            loc[i] = None
        log, out = [], []
        eq = lambda p, q: conj(*[x == y for x, y in zip(p, q)])
        tmp = P(1, 1, 1)
        for j in range(len(self.script) if self.script else self.steps):
            if self.script:
                op, i = self.script[j]
            else:
                op = self.ops[env.choice_range(f'op{j}', 0, len(self.ops) - 1)]
                i = env.choice_range(f'agent{j}', 0, self.agents - 1)
            if i not in loc and op in ('move', 'remove'):
                continue
            where = lambda: f'{self.kind} {self.occ} {self.border} bounds {self.org} {self.ext}: {log}'
            if op == 'move':
                t = self.coords(env, f't{j}', self.reach)
                dst = self.landed(t) if self.discrete else t
                log.append(f'move {i} {t}')
                if self.reuse:
                    tmp._reset3D(*t)
                    r = s.move(ags[i], tmp)
                else:
                    r = s.move(ags[i], P(*t))
                taken = False
                if self.occ == 'Single':
                    taken = disj(*[eq(dst, l) for b, l in loc.items() if b != i and l is not None])
                if r is None:
                    env.check(taken, 'refused', where)
                else:
                    env.check(neg(taken) if not isinstance(taken, bool) else True, 'single', where)
                    got = env.arr(r.coordinates)
                    env.check(eq(got, dst), 'location', lambda: f'{got} instead of {dst}: ' + where())
                    if loc[i] is None or not bool(eq(dst, loc[i])):
                        arr[i] = j
                    loc[i] = dst
            elif op == 'remove':
                log.append(f'remove {i}')
                s.remove(ags[i])
                del loc[i]
            elif op == 'add':
                log.append(f'add {i}')
                s.add(ags[i])
                loc.setdefault(i, None)
            elif op == 'replace':         # another object of the same id
                log.append(f'replace {i}')
                ags[i] = core.Agent(i, i % 2, 0)
                s.add(ags[i])
                loc[i] = None
            if j < (len(self.script) if self.script else self.steps) - 1 and not getattr(self, 'every', False):
                continue
            free = self.coords(env, f'q{j}', 0)
            for q in [free]:
                locs, has, one, ids, num = o = self.observe(env, s, ags, P, q)
                out.append(o)
                where = lambda: f'{self.kind} {self.occ} {self.border} bounds {self.org} {self.ext}: {log}: at {q}: {o[1:]} locations {locs} expected {loc}'
                for i in ags:
                    w = loc.get(i)
                    env.check((locs[i] is None) == (w is None), 'location', where)
                    env.check(w is None or locs[i] is None or eq(locs[i], w), 'location', where)
                    env.check(has[i] == (i in loc), 'contains', where)
                    at = w is not None and eq(w, q)
                    env.check(at if i in ids else (neg(at) if not isinstance(at, bool) else not at), 'occupants', where)
                env.check(len(set(ids)) == len(ids), 'once', where)
                env.check(all(arr.get(x, 0) < arr.get(y, 0) for x, y in zip(ids, ids[1:])), 'order', where)
                env.check(one == (ids[0] if ids else None), 'first', where)
                if num:
                    env.check(num == [len(ids), sum(1 for x in ids if x % 2 == 0), sum(1 for x in ids if x % 2)], 'count', where)
                if self.occ == 'Single':
                    env.check(len(ids) <= 1, 'single', where)
        return out


class During(Harness):
    """An agent is moved or removed while the agents at its location are iterated over: an agent that is at the location
    during the whole iteration is returned exactly once, the others at most once."""
    engine = 'll'
    ranks = 1
    kind = 'grid'
    org, ext = [0, 0], [4, 4]
    agents = 3

    def run(self, env):
        sp, core = env.r4.space, env.r4.core
        h = Occupancy(kind=self.kind, org=self.org, ext=self.ext)
        s = h.make(env)
        P = sp.DiscretePoint if h.discrete else sp.ContinuousPoint
        ags = {i: core.Agent(i, 0, 0) for i in range(self.agents)}
        q = [1, 2, 0]
        for a in ags.values():
            s.add(a)
            s.move(a, P(*q))
        got, moved, log = [], set(), []
        at = env.choice_range('at', 0, self.agents - 1)
        for a in s.get_agents(P(*q)):
            got.append(a.id)
            if len(got) - 1 == at:
                for j in range(self.changes):
                    i = env.choice_range(f'agent{j}', 0, self.agents - 1)
                    if i in moved:
                        continue
                    if env.bool(f'remove{j}'):
                        log.append(f'remove {i}')
                        s.remove(ags[i])
                    else:
                        c = h.coords(env, f't{j}', 0)
                        if bool(conj(*[x == y for x, y in zip(c, q)])):
                            continue
                        log.append(f'move {i} {c}')
                        s.move(ags[i], P(*c))
                    moved.add(i)
            if len(got) > 10:
                break
        where = lambda: f'{self.kind}: returned {got}, at {at}: {log}'
        env.check(len(set(got)) == len(got), 'iterate-once', where)
        env.check(all(i in got for i in range(self.agents) if i not in moved), 'iterate-all', where)
        return [got]


FUNCTIONS = ['space.h: BaseSpace add/remove/move/getLocation/getAgentAt/getAgentsAt/contains', 'grid.h: BaseGrid::move', 'cspace.h: BaseCSpace::move, remove', 'occupancy.h: SingleOccupancyAccessor, MultiOccupancyAccessor',
             'geometry.cpp: point_equals, extract_coords, update_point, create_point', 'distributed_space.h: SharedGrid, SharedContinuousSpace', 'spacemodule.cpp: Grid_*, CSpace_*, SharedGrid_*, SharedCSpace_* (compiled from the working tree, executed as instrumented LLVM IR)']
BOUNDS = {'quick': ['Grid, ContinuousSpace, SharedGrid, SharedCSpace (one rank), single and multiple occupancy, 1D to 3D', '2 agents and 3 symbolic operations of move, remove, add; 3 agents and fixed scripts of up to 5 operations',
                    'every target and every looked up point symbolic in the bounds (discrete: also outside, sticky and periodic); continuous: multiples of 2^-1', 'iteration over 3 agents with 1 or 2 changes at a symbolic position']}
BOUNDS['thorough'] = BOUNDS['quick'] + ['thorough: 4 symbolic operations, 3 agents']
OUTSIDE = ['NaN coordinates', 'agents that arrive from other ranks (R07, R14)']
ASSUMPTIONS = ['clang -O1 LLVM IR of the sources equals their meaning', 'CPython/numpy are not encoded']
LABELS = ['location', 'contains', 'occupants', 'once', 'order', 'first', 'count', 'single', 'refused', 'iterate-once', 'iterate-all']


def jobs(tier):
    J = []
    top = tier == 'thorough'
    org, ext = [-3, 2, 1], [9, 8, 7]
    for kind in ('grid', 'cont', 'sgrid', 'scont'):
        disc = 'grid' in kind
        for occ in ('Multiple', 'Single'):
            for nd in (1, 2, 3) if kind in ('grid', 'cont') else (2,):
                p = dict(kind=kind, occ=occ, org=org[:nd], ext=ext[:nd])
                big = nd == 1 or top
                J.append(Job(Occupancy, dict(p, steps=3 if big else 2, agents=2), pin=dict(op0=0, agent0=0)))
                J.append(Job(Occupancy, dict(p, script=[('move', 0), ('move', 1), ('remove', 0), ('move', 1)] if big else [('move', 0), ('move', 1), ('remove', 0)])))
                J.append(Job(Occupancy, dict(p, script=[('move', 0), ('add', 0), ('move', 1), ('replace', 0)] + [('move', 0)] * big)))
                J.append(Job(Occupancy, dict(p, agents=3, script=[('move', 0), ('move', 1)] + [('move', 2)] * (big or nd == 2 and disc))))
                J.append(Job(Occupancy, dict(p, script=[('move', 0), ('move', 1), ('move', 0)] + [('move', 1)] * big if big or nd == 2 else [('move', 0), ('move', 0)], reuse=True)))
                if nd == 1:
                    J.append(Job(Occupancy, dict(p, agents=3, script=[('move', 0), ('move', 1), ('move', 2), ('remove', 0), ('move', 1)])))
                    J.append(Job(Occupancy, dict(p, agents=3, script=[('move', 0), ('move', 1), ('remove', 0), ('add', 0), ('move', 2), ('move', 0)])))
            if disc:
                for border in ('Sticky', 'Periodic'):
                    for nd in (1, 2):
                        J.append(Job(Occupancy, dict(kind=kind, occ=occ, org=org[:nd], ext=[3, 2][:nd], border=border, reach=2, script=[('move', 0), ('move', 1), ('move', 0)])))
        for c in (1, 2):
            J.append(Job(During, dict(kind=kind, changes=c)))
    if top:
        for kind in ('grid', 'cont'):
            for occ in ('Multiple', 'Single'):
                J.append(Job(Occupancy, dict(kind=kind, occ=occ, org=[0], ext=[5], steps=4, agents=3), pin=dict(op0=0, agent0=0)))
    return J
