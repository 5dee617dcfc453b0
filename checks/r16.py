"""R16: get_agents_within returns exactly the agents inside the half-open box, whatever the history (instrumented C++)."""
from lib.harness import Harness
from lib.runner import Job
from lib.llsym.lltypes import conj, neg
from checks.r12 import LBL


class Within(Harness):
    """kind cont|scont. script: ['move', agent, target], ['remove', agent], ['add', agent], ['query', box]; target: coordinates,
    'sym' (all coordinates symbolic), a list with 'sym' for single coordinates, or ['at', agent] (the location of that agent).
    box: 'sym' (symbolic origin and extent in every dimension) or (min, extent) pairs, 'sym' also for a single pair."""
    engine = 'll'
    ranks = 1
    kind = 'cont'
    border = 'Sticky'
    occ = 'Multiple'
    threshold = 1
    k = 1
    ops = None

    def make(self, env):
        sp = env.r4.space
        b, o = getattr(sp.BorderType, self.border), getattr(sp.OccupancyType, self.occ)
        box = []
        for i in range(3):
            box += [self.org[i], self.ext[i]] if i < len(self.ext) else [0, 0]
        bb = env.r4.geometry.BoundingBox(*box)
        if self.kind == 'cont':
            return sp.ContinuousSpace('s', bb, b, o, self.threshold)
        env.mpi(1, 0)
        return sp.SharedCSpace('s', bb, b, o, 1, env.comm, self.threshold)

    def coords(self, env, name, spec, loc):
        nd = len(self.ext)
        if spec[0] == 'at':
            return list(loc[spec[1]])
        c = []
        for i in range(nd):
            x = spec if spec == 'sym' else spec[i]
            lo, hi = self.org[i], self.org[i] + self.ext[i]
            c.append(env.dbl_raw(name + LBL[i], lo << self.k, (hi << self.k) - 1, self.k) if x == "sym" else env.flt(x))
        return c + [env.flt(0)] * (3 - nd)

    def box(self, env, name, spec):
        out = []
        for i in range(len(self.ext)):
            x = spec if spec == 'sym' else spec[i]
            out.append((env.int(f'{name}{LBL[i]}', self.org[i] - 2, self.org[i] + self.ext[i] + 1), env.int(f'{name}e{LBL[i]}', 1, self.ext[i] + 4)) if x == 'sym' else tuple(x))
        return out + [(0, 0)] * (3 - len(out))

    def run(self, env):
        sp, core = env.r4.space, env.r4.core
        P = sp.ContinuousPoint
        s = self.make(env)
        ags, loc, log, out = {}, {}, [], []
        nd = len(self.ext)
        for j, op in enumerate(self.script):
            what = op[0]
            if what == 'any':     # a symbolically chosen operation of the list
                op = op[1][env.choice_range(f'op{j}', 0, len(op[1]) - 1)]
                what = op[0]
            i = op[1]
            if what == 'move':
                if len(op) > 2 and op[2][0] == 'at' and loc.get(op[2][1]) is None:
                    continue
                if i not in loc:
                    if i not in ags:
                        ags[i] = core.Agent(i, 0, 0)
                    s.add(ags[i])
                    loc[i] = None
                t = self.coords(env, f't{j}', op[2], loc)
                r = s.move(ags[i], P(*t))
                log.append(f'move {i} {t}' + (' refused' if r is None else ''))
                if r is not None:
                    loc[i] = t
            elif what == 'remove':
                if i in loc:
                    s.remove(ags[i])
                    del loc[i]
                    log.append(f'remove {i}')
            elif what == 'query':
                b = self.box(env, f'b{j}', op[1])
                ids = [a.id for a in s.get_agents_within(env.r4.geometry.BoundingBox(*[v for p in b for v in p]))]
                out.append(ids)
                where = lambda: f'{self.kind} {self.occ} threshold {self.threshold} bounds {self.org} {self.ext}: {log}: within {b[:nd]}: {ids} locations {loc}'
                env.check(len(set(ids)) == len(ids), 'once', where)
                env.check(all(x in loc and loc[x] is not None for x in ids), 'gone', where)
                for x, c in loc.items():
                    if c is None:
                        continue
                    inside = conj(*[conj(b[d][0] <= c[d], c[d] < b[d][0] + b[d][1]) for d in range(nd)])
                    env.check(inside if x in ids else (neg(inside) if not isinstance(inside, bool) else not inside), 'inside', where)
                log.append(f'query {b[:nd]}: {ids}')
        return out


FUNCTIONS = ['SpatialTree.h: SpatialTree, Composite2DNode, Composite3DNode, ComponentNode, MOItems, SOItems (addItem, removeItem, split, getObjectsWithin)', 'SpatialTree.cpp: Box2D, Box3D contains/intersects',
             'cspace.h: BaseCSpace::move, remove, getAgentsWithin', 'geometry.cpp: BoundingBox::contains', 'core.h: TAgentIter', 'spacemodule.cpp: CSpace_getAgentsWithin, SharedCSpace_getAgentsWithin (compiled from the working tree, executed as instrumented LLVM IR)']
BOUNDS = {'quick': ['ContinuousSpace and SharedCSpace (one rank), 1D to 3D, single and multiple occupancy, tree thresholds 1 to 3',
                    'every query box symbolic (origin from 2 below to 1 above the bounds, extents up to 4 beyond those of the space) over up to 5 agents placed at listed points, some sharing a point and some on tree planes and corners',
                    'one agent with a symbolic location (multiples of 2^-1) and a symbolic box in 1D and 2D; histories of up to 7 moves and removals of agents that share points, with symbolic choice of the operations']}
BOUNDS['thorough'] = BOUNDS['quick'] + ['thorough: longer histories, two symbolic locations, thresholds 0 and 4']
OUTSIDE = ['query boxes with fewer dimensions than the space', 'NaN coordinates', 'trees deeper than the listed placements produce']
ASSUMPTIONS = ['clang -O1 LLVM IR of the sources equals their meaning', 'CPython/numpy are not encoded']
LABELS = ['once', 'gone', 'inside']

ORG, EXT = [-3, 2, 1], [8, 10, 6]
# points on tree planes, corners, edges and inside, per number of dimensions
PLACES = {1: [[1], [-3], [4.5], [1], [1.5]],
          2: [[1, 7], [-3, 2], [4.5, 11.5], [1, 2], [1, 7]],
          3: [[1, 7, 4], [-3, 2, 1], [4.5, 11.5, 6.5], [1, 7, 3.5], [1, 7, 4]]}
NEAR = {2: [[-3, 2], [-2.5, 2.5], [-2, 3], [-2.5, 2], [-3, 2.5]], 3: [[-3, 2, 1], [-2.5, 2.5, 1.5], [-2, 3, 1], [-2.5, 2, 1], [-3, 2.5, 1.5]]}


def jobs(tier):
    J = []
    top = tier == 'thorough'
    for kind in ('cont', 'scont'):
        for occ in ('Multiple', 'Single'):
            for nd in (1, 2, 3):
                p = dict(kind=kind, occ=occ, org=ORG[:nd], ext=EXT[:nd])
                Q = ['query', 'sym']
                for th in ((1, 2, 3) if kind == 'cont' else (1,)) + ((0, 4) if top else ()):
                    for pl in [PLACES[nd]] + ([NEAR[nd]] if nd > 1 else []):
                        put = [['move', i, c] for i, c in enumerate(pl)]
                        J.append(Job(Within, dict(p, threshold=th, script=put + [Q])))
                if nd < 3:
                    J.append(Job(Within, dict(p, script=[['move', 0, PLACES[nd][0]], ['move', 1, 'sym'], Q] if nd == 1 or top else [['move', 0, PLACES[nd][0]], ['move', 1, 'sym'], ['query', ['sym'] + [[2, 4]] * (nd - 1)]])))
                    # an agent leaves or is removed from a point that others share
                    pl = PLACES[nd]
                    share = [['move', 0, pl[0]], ['move', 1, pl[0]], ['move', 2, pl[0]]]
                    act = [[o, i] + ([pl[2 - i % 2]] if o == 'move' else []) for o in ('move', 'remove') for i in range(3)] + [['move', i, pl[0]] for i in range(3)]
                    whole = ['query', [[ORG[i], EXT[i]] for i in range(nd)]]
                    if kind == 'cont':
                        for th in (1, 2):
                            J.append(Job(Within, dict(p, threshold=th, script=share + [['move', 3, pl[1]]] + [['any', act]] * (4 if top else 3) + [whole, ['query', ['sym'] + [[1, 5]] * (nd - 1)]])))
                if nd == 3 and kind == 'cont':
                    # only one coordinate is symbolic in 3D
                    for d in range(3):
                        c = [list(x) for x in PLACES[3]]
                        c[2][d] = 'sym'
                        J.append(Job(Within, dict(p, script=[['move', i, x] for i, x in enumerate(c)] + [['query', [[ORG[x], 4] if x != d else 'sym' for x in range(3)]]])))
                # the symbolic location is left again, or its agent removed; the tree has been split by others
                if nd > 1:
                    one = [PLACES[nd][0][:-1] + ['sym'], ['sym'] + PLACES[nd][0][1:]]
                    for t in one:
                        for last in (['move', 0, PLACES[nd][1]], ['remove', 0], ['move', 0, t]):
                            J.append(Job(Within, dict(p, threshold=1, script=[['move', 0, t], ['move', 1, ['at', 0]], ['move', 2, PLACES[nd][2]], ['move', 3, PLACES[nd][3]], last,
                                                                                ['query', [[ORG[i], EXT[i]] for i in range(nd)]], ['query', [[ORG[i] + 4, 4] for i in range(nd)]]])))
    return J
