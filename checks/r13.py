"""R13: the regions a rank shares with another rank are its points within the buffer of that rank's bounds (instrumented C++)."""
from lib.harness import Harness
from lib.runner import Job
from lib.llsym.lltypes import conj, disj, neg
from checks.r12 import global_box, box, LBL


class Regions(Harness):
    engine = 'll'
    omag = 1 << 30
    kind = 'topo'
    periodic = False

    @property
    def ranks(self):
        return self.n

    def local(self, env, bb, buf, r):
        sp = env.r4.space
        b = sp.BorderType.Periodic if self.periodic else sp.BorderType.Sticky
        t = sp.CartesianTopology(env.comm, bb, self.periodic)
        if self.kind == 'topo':
            lb, regs = t.local_bounds, t.compute_buffer_nghs(buf)
        elif self.kind == 'grid':
            s = sp.SharedGrid('g', bb, b, sp.OccupancyType.Multiple, buf, env.comm)
            lb, regs = s.get_local_bounds(), s._get_buffer_data()
        else:
            s = sp.SharedCSpace('c', bb, b, sp.OccupancyType.Multiple, buf, env.comm, 100)
            lb, regs = s.get_local_bounds(), s._get_buffer_data()
        return [box(lb), [int(x) for x in t.procs_per_dim], [[int(k), list(reg)] for k, reg in regs]]

    def run(self, env):
        n, nd = self.n, self.nd
        org, ext, bb = global_box(env, self)
        buf = env.int('buffer', *self.buffer) if isinstance(self.buffer, (list, tuple)) else self.buffer
        res = env.per_rank(n, lambda r: self.local(env, bb, buf, r))
        procs = res[0][1]
        for r in range(n):
            for i in range(nd):
                env.assume(res[r][0][i][1] >= buf)
        pt = [env.int(f'p{LBL[i]}', -2 * self.omag, 2 * self.omag) for i in range(nd)]
        mine = self.mine if hasattr(self, 'mine') else range(n)
        for r in mine:
            lb = res[r][0]
            here = conj(*[conj(lb[i][0] <= pt[i], pt[i] < lb[i][0] + lb[i][1]) for i in range(nd)])
            where = lambda: (f'rank {r}/{n} procs {procs} origin {org} extents {ext} buffer {buf} periodic {self.periodic}: '
                             f'point {pt}, local {lb}, regions {res[r][2]}')
            for k, reg in res[r][2]:
                env.check(0 <= k < n, 'rank', where)
                env.check(conj(*[reg[j] == 0 for j in range(2 * nd, 6)]), 'unused-dimension', where)
            for q in range(n):
                if q == r:
                    continue
                got = disj(*[conj(*[conj(reg[2 * i] <= pt[i], pt[i] < reg[2 * i + 1]) for i in range(nd)]) for k, reg in res[r][2] if k == q])
                ob = res[q][0]
                want = [disj(*[conj(ob[i][0] - buf <= pt[i] + t * ext[i], pt[i] + t * ext[i] < ob[i][0] + ob[i][1] + buf)
                               for t in ((-1, 0, 1) if self.periodic else (0,))]) for i in range(nd)]
                want = conj(here, *want)
                env.check(disj(neg(want), got), 'missing', lambda: f'for rank {q} {ob} not shared: ' + where())
                env.check(disj(neg(got), want), 'extra', lambda: f'for rank {q} {ob} shared: ' + where())
        return res


FUNCTIONS = ['distributed_space.cpp: compute_buffer_bounds, compute_neighbor_buffers, CartesianTopology::getNeighbors, getBounds, getCoords', 'distributed_space.h: DistributedCartesianSpace (constructor), getNeighborData',
             'spacemodule.cpp: CartesianTopology_computeBufferData, SharedGrid_getBufferData, SharedContinuousSpace_getBufferData (compiled from the working tree, executed as instrumented LLVM IR)']
BOUNDS = {'quick': ['2 to 9 and 12 ranks in 1D and 2D, 2 to 6, 8 and 12 in 3D (topology), 2 to 4 and 6 ranks for SharedGrid and SharedCSpace; sticky and periodic',
                    'symbolic origins |o| <= 2^30, symbolic extents up to 2^30, symbolic buffer from 0 to the smallest local extent', 'every pair of ranks, one symbolic point']}
BOUNDS['thorough'] = ['additionally up to 16 ranks in 1D and 2D and up to 12 and 18 in 3D']
OUTSIDE = ['a buffer larger than the local bounds of a rank', 'extents smaller than the number of processes of the dimension']
ASSUMPTIONS = ['MPI_Dims_create is the real one; MPI_Cart_create/coords/rank/Allgather are simulated according to the MPI standard', 'clang -O1 LLVM IR of the sources equals their meaning']
LABELS = ['rank', 'unused-dimension', 'missing', 'extra']


def jobs(tier):
    J = []
    big = 1 << 30
    top = tier == 'thorough'
    ns = {1: [2, 3, 4, 5, 6, 7, 8, 9, 12], 2: [2, 3, 4, 5, 6, 7, 8, 9, 12], 3: [2, 3, 4, 5, 6, 8, 12]}
    if top:
        ns = {1: range(2, 17), 2: range(2, 17), 3: list(range(2, 13)) + [18]}
    for nd in (1, 2, 3):
        for n in ns[nd]:
            for per in (False, True):
                J.append(Job(Regions, dict(n=n, nd=nd, ext=[(n, big)] * nd, periodic=per, buffer=(0, big))))
    for n in (2, 3, 4, 6):
        for nd in (1, 2, 3):
            for kind in ('grid', 'cont'):
                for per in (False, True):
                    J.append(Job(Regions, dict(n=n, nd=nd, ext=[(n, big)] * nd, kind=kind, periodic=per, buffer=(0, big))))
    return J
