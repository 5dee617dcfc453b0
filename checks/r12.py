"""R12: the ranks' local bounds partition the global bounds (instrumented C++)."""
from lib.harness import Harness
from lib.runner import Job
from lib.llsym.lltypes import conj, disj, neg

LBL = ('x', 'y', 'z')


def global_box(env, h):
    """Symbolic origin and extents of the used dimensions."""
    org, ext, b = [], [], []
    for i in range(3):
        used = i < h.nd
        org.append(env.int(f'o{LBL[i]}', -h.omag, h.omag) if used else 0)
        ext.append(env.int(f'e{LBL[i]}', *h.ext[i]) if used else 0)
        b += [org[i], ext[i]]
    return org, ext, env.r4.geometry.BoundingBox(*b)


def box(bb):
    """[(min, extent)] of a BoundingBox"""
    return [(bb.xmin, bb.xextent), (bb.ymin, bb.yextent), (bb.zmin, bb.zextent)]


def unrank(rank, procs):
    n = 1
    for p in procs:
        n *= p
    out = []
    for p in procs:
        n //= p
        out.append(rank // n)
        rank %= n
    return out


class Bounds(Harness):
    """n ranks, nd dimensions; ext: intervals of the extents (at least the processes of the dimension)."""
    engine = 'll'
    omag = 1 << 40
    kind = 'topo'
    periodic = False

    @property
    def ranks(self):
        return self.n

    def local(self, env, bb, r):
        sp = env.r4.space
        b = sp.BorderType.Periodic if self.periodic else sp.BorderType.Sticky
        if self.kind == 'topo':
            t = sp.CartesianTopology(env.comm, bb, self.periodic)
            return [box(t.local_bounds), [int(x) for x in t.procs_per_dim], [int(x) for x in t.coordinates]]
        if self.kind == 'grid':
            s = sp.SharedGrid('g', bb, b, sp.OccupancyType.Multiple, 1, env.comm)
        else:
            s = sp.SharedCSpace('c', bb, b, sp.OccupancyType.Multiple, 1, env.comm, 100)
        return [box(s.get_local_bounds()), None, None]

    def run(self, env):
        n, nd = self.n, self.nd
        org, ext, bb = global_box(env, self)
        res = env.per_rank(n, lambda r: self.local(env, bb, r))
        loc = [x[0] for x in res]
        where = lambda: f'{n} ranks, origin {org} extents {ext}: {loc}'
        pt = [env.int(f'p{LBL[i]}', -2 * self.omag, 2 * self.omag) for i in range(nd)]
        inside = lambda m, e, p: conj(m <= p, p < m + e)
        owners = 0
        own = [conj(*[inside(loc[r][i][0], loc[r][i][1], pt[i]) for i in range(nd)]) for r in range(n)]
        isin = conj(*[inside(org[i], ext[i], pt[i]) for i in range(nd)])
        env.check(disj(neg(isin), *own), 'covered', where)
        for r in range(n):
            env.check(disj(isin, neg(own[r])), 'within-global', where)
        for r in range(n):
            for q in range(r):
                env.check(disj(*[disj(loc[r][i][0] + loc[r][i][1] <= loc[q][i][0], loc[q][i][0] + loc[q][i][1] <= loc[r][i][0]) for i in range(nd)]),
                          'disjoint', where)
                for i in range(nd):
                    d = loc[r][i][1] - loc[q][i][1]
                    env.check(conj(d <= 1, d >= -1), 'balanced', where)
            env.check(conj(*[conj(m == 0, e == 0) for m, e in loc[r][nd:]]), 'unused-dimension', where)
        if self.kind == 'topo':
            procs = res[0][1]
            prod = 1
            for p in procs:
                prod *= p
            env.check(len(procs) == nd and prod == n, 'coordinates', f'{procs} for {n} ranks')
            for r in range(n):
                env.check(res[r][1] == procs and res[r][2] == unrank(r, procs), 'coordinates', f'rank {r}/{n} {procs}: {res[r][2]}')
        cs = [unrank(r, res[0][1]) for r in range(n)] if self.kind == 'topo' else None
        for i in range(nd if cs else 0):
            for r in range(n):
                for q in range(n):
                    if cs[r][i] + 1 == cs[q][i]:
                        env.check(loc[r][i][0] + loc[r][i][1] == loc[q][i][0], 'ordered', where)
                    elif cs[r][i] == cs[q][i] and q < r:
                        env.check(conj(loc[r][i][0] == loc[q][i][0], loc[r][i][1] == loc[q][i][1]), 'ordered', where)
        return res


FUNCTIONS = ['distributed_space.cpp: CartesianTopology (constructor), getBounds, adjust_min_extent, getCoords, getRank', 'distributed_space.h: DistributedCartesianSpace (constructor), getLocalBounds, getAllBounds',
             'geometry.cpp: BoundingBox', 'spacemodule.cpp: CartesianTopology_init and its attributes, SharedGrid_init, SharedContinuousSpace_init, getLocalBounds (compiled from the working tree, executed as instrumented LLVM IR)']
BOUNDS = {'quick': ['CartesianTopology: 1 to 12 ranks in 1D, 1 to 16 in 2D, 1 to 12 in 3D, SharedGrid and SharedCSpace on 1 to 6 ranks', 'symbolic origins |o| <= 2^40 and extents from the number of processes of the dimension to 2^40',
                    'one symbolic point: in the bounds of exactly one rank']}
BOUNDS['thorough'] = ['1 to 24 ranks in 1D, 2D and 3D']
OUTSIDE = ['extents smaller than the number of processes of the dimension (a rank then has an empty local bounds)', 'the process grid itself is chosen by MPI_Dims_create of the installed MPI']
ASSUMPTIONS = ['MPI_Dims_create is the real one; MPI_Cart_create/coords/rank/Allgather are simulated according to the MPI standard (row-major ranks, no reordering)',
               'clang -O1 LLVM IR of the sources equals their meaning']
LABELS = ['covered', 'within-global', 'disjoint', 'balanced', 'unused-dimension', 'coordinates', 'ordered']


def dims(n, nd):
    """MPI_Dims_create's grids are as square as possible: an upper bound of the processes per dimension is enough here."""
    return [n] * nd


def jobs(tier):
    J = []
    big = 1 << 40
    top = tier == 'thorough'
    for nd, m in ((1, 24 if top else 12), (2, 24 if top else 16), (3, 24 if top else 12)):
        for n in range(1, m + 1):
            J.append(Job(Bounds, dict(n=n, nd=nd, ext=[(n, big)] * nd, periodic=bool(n % 2))))
    for n in (1, 2, 3, 4, 6):
        for nd in (1, 2, 3):
            for kind in ('grid', 'cont'):
                for per in (False, True):
                    J.append(Job(Bounds, dict(n=n, nd=nd, ext=[(n, big)] * nd, kind=kind, periodic=per)))
    return J
