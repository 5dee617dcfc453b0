"""R26: agents keep their identity and points their coordinates (instrumented C++)."""
from lib.harness import Harness
from lib.runner import Job
from lib.llsym.lltypes import conj, disj, neg
from checks.r11 import space


def same(p, q):
    return conj(*[a == b for a, b in zip(p, q)])


class Points(Harness):
    """Two points of a kind with arbitrary coordinates; the first is made, or reset, in the way `how` says."""
    engine = 'll'
    kind = 'grid'
    how = 'init3'
    mag = 2 ** 62
    k = 20

    def coord(self, env, n):
        if self.kind == 'grid':
            return env.int(n, -self.mag, self.mag)
        return env.dbl_raw(n, -2 ** 50, 2 ** 50, self.k)

    def run(self, env):
        sp = env.r4.space
        P = sp.DiscretePoint if self.kind == 'grid' else sp.ContinuousPoint
        z = 0 if self.kind == 'grid' else 0.0
        c = [self.coord(env, f'p{x}') for x in 'xyz']
        d = [self.coord(env, f'q{x}') for x in 'xyz']
        q = P(*d)
        old = [5, 6, 7]
        p = P(*old)
        keep = p
        want = c
        h = self.how
        if h == 'init3':
            p = P(*c)
        elif h == 'init2':
            p, want = P(c[0], c[1]), [c[0], c[1], z]
        elif h == 'kw':
            p = P(z=c[2], y=c[1], x=c[0])
        elif h == 'reset1':
            p._reset1D(c[0])
            want = [c[0], 6, 7]
        elif h == 'reset2':
            p._reset2D(c[0], c[1])
            want = [c[0], c[1], 7]
        elif h == 'reset3':
            p._reset3D(*c)
        elif h == 'reset':
            p._reset((c[0], c[1], c[2]))
        else:
            src = P(*c).coordinates
            if h == 'array':
                a, want = src, c
            elif h == 'array2':
                a, want = src[:2], [c[0], c[1], 7]
            elif h == 'array1':
                a, want = src[1:2], [c[1], 6, 7]
            elif h == 'reversed':
                a, want = src[::-1], [c[2], c[1], c[0]]
            elif h == 'strided':
                a, want = src[::2], [c[0], c[2], 7]
            p._reset_from_array(a)
        got = [p.x, p.y, p.z]
        arr = env.arr(p.coordinates)
        what = lambda: f'{self.kind} {self.how} {c}: {got} {arr}'
        env.check(same(got, want), 'coordinates', what)
        env.check(same(arr, want), 'coordinates', what)
        eq, ne = bool(p == q), bool(p != q)
        s = same(want, d)
        env.check(s if eq else neg(s), 'equality', lambda: f'{want} == {d}: {eq}')
        env.check(ne != eq, 'equality', lambda: f'{want} {d}: == {eq}, != {ne}')
        env.check(bool(q == p) == eq, 'equality', lambda: f'{d} == {want}: {not eq}')
        env.check(same([q.x, q.y, q.z], d), 'independent', lambda: f'{d}: {[q.x, q.y, q.z]}')
        if p is not keep:
            env.check([keep.x, keep.y, keep.z] == old, 'independent', lambda: [keep.x, keep.y, keep.z])
        r = P(*c)
        r._reset3D(*d)
        env.check(same([p.x, p.y, p.z], want), 'independent', what)
        env.check(bool(r == q), 'equality', lambda: f'{d} reset')
        return [got, arr, eq, ne]


class Made(Harness):
    """An agent whose id is made of any numbers, one with a type that is not allowed."""
    engine = 'll'

    def run(self, env):
        core = env.r4.core
        c = [env.int('id', -2 ** 62, 2 ** 62), env.int('type', -2 ** 31, 2 ** 31 - 1), env.int('rank', 0, 2 ** 31 - 1)]
        d = [env.int('oid', -2 ** 62, 2 ** 62), env.int('otype', 0, 2 ** 31 - 1), env.int('orank', 0, 2 ** 31 - 1)]
        o = core.Agent(id=d[0], type=d[1], rank=d[2])
        try:
            a = core.Agent(*c)
        except ValueError:
            env.check(c[1] < 0, 'type', lambda: f'Agent{tuple(c)}: ValueError')
            return ['error']
        env.check(c[1] >= 0, 'type', lambda: f'Agent{tuple(c)}: no error')
        for x, w in ((a, c), (o, d)):
            got = [x.id, x.type, x.uid_rank]
            env.check(same(got, w), 'identity', lambda: f'Agent{tuple(w)}: {got}')
            u = x.uid
            env.check(len(u) == 3 and same(list(u), w), 'identity', lambda: f'Agent{tuple(w)}: uid {u}')
            env.check(x.local_rank == w[2], 'identity', lambda: f'Agent{tuple(w)}: local rank {x.local_rank}')
        r = env.int('moved', 0, 2 ** 31 - 1)
        a.local_rank = r
        env.check(a.local_rank == r, 'identity', lambda: f'local rank {a.local_rank} set to {r}')
        for x, w in ((a, c), (o, d)):
            u = x.uid
            env.check(conj(same(list(u), w), same([x.id, x.type, x.uid_rank], w)), 'identity', lambda: f'Agent{tuple(w)}: uid {u} after a rank change')
        env.check(o.local_rank == d[2], 'identity', lambda: f'{o.local_rank}')
        return ['made', list(a.uid), list(o.uid)]


class Agents(Harness):
    """Agents with arbitrary, different unique ids in one space: an operation on one of them does not affect the others."""
    engine = 'll'
    kind = 'grid'
    n = 2
    same_parts = ()       # parts of the id that all agents share
    removed = 0
    together = 0          # all agents at one location
    tmax, rmax, imag = 2 ** 31 - 1, 2 ** 31 - 1, 2 ** 62

    def run(self, env):
        sp, core = env.r4.space, env.r4.core
        if self.kind in ('sgrid', 'scont'):
            env.mpi(1, 0)
            bb = env.r4.geometry.BoundingBox(0, 10, 0, 10, 0, 0)
            b, o = sp.BorderType.Sticky, sp.OccupancyType.Multiple
            s = sp.SharedGrid('s', bb, b, o, 1, env.comm) if self.kind == 'sgrid' else sp.SharedCSpace('s', bb, b, o, 1, env.comm, 100)
        else:
            s = space(env, self.kind, 's', env.r4.geometry.BoundingBox(0, 10, 0, 10, 0, 0), 'Sticky')
        P = sp.DiscretePoint if 'grid' in self.kind else sp.ContinuousPoint
        ids = []
        for i in range(self.n):
            c = [env.int(f'id{i}', -self.imag, self.imag), env.int(f'type{i}', 0, self.tmax), env.int(f'rank{i}', 0, self.rmax)]
            for k in self.same_parts:
                if i:
                    c[k] = ids[0][k]
            ids.append(c)
        for i in range(self.n):
            for j in range(i):
                env.assume(neg(same(ids[i], ids[j])))
        ags = [core.Agent(*c) for c in ids]
        out = []
        what = lambda: f'{self.kind} ids {ids}'
        at = [[4, 2, 0] if self.together else [i + 1, 2 * i + 1, 0] for i in range(self.n)]
        for a in ags:
            s.add(a)
        for a, q in zip(ags, at):
            s.move(a, P(*q))

        def look(present):
            for i, (a, q) in enumerate(zip(ags, at)):
                l = s.get_location(a)
                l = None if l is None else env.arr(l.coordinates)
                env.check(bool(s.contains(a)) == (i in present), 'told-apart', lambda: f'{what()}: contains({i})')
                env.check(l == q if i in present else l is None, 'told-apart', lambda: f'{what()}: location of {i} {l}, expected {q}')
                here = list(s.get_agents(P(*q)))
                there = [b for j, b in enumerate(ags) if at[j] == q and j in present]
                env.check(len(here) == len(there) and all(any(x is b for x in here) for b in there), 'told-apart', lambda: f'{what()}: {len(here)} agents at {q}, expected {len(there)}')
        look(range(self.n))
        out.append(self.n)
        s.remove(ags[self.removed])
        look([i for i in range(self.n) if i != self.removed])
        m = (self.removed + 1) % self.n
        at[m] = [7, 3, 0]
        s.move(ags[m], P(*at[m]))
        look([i for i in range(self.n) if i != self.removed])
        return out


FUNCTIONS = ['coremodule.cpp: Agent_new/init, getters, local_rank; core.h: agent_id_comp', 'spacemodule.cpp: DiscretePoint_*, ContinuousPoint_* (init, _reset*, _reset_from_array, coordinates, comparison)',
             'space.h / grid.h / cspace.h: the maps keyed by agent ids (compiled from the working tree, executed as instrumented LLVM IR)']
BOUNDS = {'quick': ['all coordinates: integers up to 2^62, doubles that are multiples of 2^-20 up to 2^30 in magnitude; points made with 2 or 3 coordinates, by name, reset from 1 to 3 values, a tuple or 1D arrays of 1 to 3 elements (contiguous, reversed, every second element) of the point\'s own number type',
                    'one agent made with any id parts (id up to 2^62 in magnitude, any int type, rank up to 2^31 - 1) and another one next to it', '2 and 3 agents with any different ids, also with shared parts, apart and at one location; add, move, remove in grids and continuous spaces, local and shared (one rank)']}
BOUNDS['thorough'] = BOUNDS['quick'] + ['thorough: 4 agents that share one or two parts']
OUTSIDE = ['reset from arrays of other number types, NaN', 'negative ranks; ids beyond 2^62', 'the text of repr()']
ASSUMPTIONS = ['clang -O1 LLVM IR of the sources equals their meaning', 'CPython/numpy are not encoded']
LABELS = ['coordinates', 'equality', 'independent', 'type', 'identity', 'told-apart']


def jobs(tier):
    J = [Job(Made)]
    for kind in ('grid', 'cont'):
        for how in ('init3', 'init2', 'kw', 'reset1', 'reset2', 'reset3', 'reset', 'array', 'array2', 'array1', 'reversed', 'strided'):
            J.append(Job(Points, dict(kind=kind, how=how)))
    for kind in ('grid', 'cont', 'sgrid', 'scont'):
        for to in (0, 1):
            for r in (0, 1):
                J.append(Job(Agents, dict(kind=kind, n=2, removed=r, together=to)))
            for parts in ([0, 1], [0, 2], [1, 2], [0], [1], [2], []):
                J.append(Job(Agents, dict(kind=kind, n=3, same_parts=parts, removed=1, together=to)))
            if tier == 'thorough':
                for parts in ([0, 1], [0, 2], [1, 2], [0], [1], [2]):
                    J.append(Job(Agents, dict(kind=kind, n=4, same_parts=parts, removed=2, together=to)))
                for r in (0, 2):
                    J.append(Job(Agents, dict(kind=kind, n=3, removed=r, together=to)))
    return J
