"""R20: synchronizing a shared value layer copies the neighbors' border values."""
import itertools
from lib.harness import Harness
from lib.runner import Job
from lib.pysym import ops
from lib import topo
from checks import vl_common as V

FUNCTIONS = ['value_layer.SharedValueLayer.__init__/_init_value/_init_buffered_bounds/_init_sync_data/_init_sync_data_1d/_init_sync_data_2d/'
             '_wrap_slice_vals/_synch_ghosts/_buffer_self*', 'value_layer._compute_meta_data_counts',
             'value_layer.ValueLayer.get/set/get_nghs', 'value_layer._Impl1D/_Impl2D', 'geometry.find_1d/2d_nghs_*',
             'context.SharedContext.add_value_layer/synchronize']
BOUNDS = {'quick': ['1D and 2D layers on 1, 2, 3, 4, 6 and 9 ranks (one to five extents each, also ones the ranks share unequally), sticky and periodic, '
                    'buffer 1 and 2; symbolic origin in [-60, 60] per dimension; initial value, contents of all cells and junk in the buffers symbolic; '
                    'values up to 1000, up to 2^53 in some; '
                    'two synchronizations, every own and every buffered cell read, every own cell\'s neighborhood'],
          'thorough': ['additionally 5, 8 and 12 ranks, buffer 3, three synchronizations, layers of 32 bit floats']}
ASSUMPTIONS = ['local bounds and neighbor regions come from the built extension at origin 0, moved by the symbolic origin (R12/R13 decide their computation)',
               'compiled border policies and points satisfy R11', 'torch tensors behave like numpy arrays (sampled paths are re-run with torch)',
               'simulated MPI collectives']
OUTSIDE = ['buffers as large as a rank\'s local extent or larger', '3D layers (rejected by the code)', 'rounding of fractions and of integers beyond 2^53', 'layers of integers (torch.rand raises an error when one is made, see DESIGN.md)']
LABELS = ['own-values', 'buffer-values', 'ngh-values']


class SVL(Harness):
    name = 'shared-value-layer'
    modules = ('core', 'random', 'geometry', 'space', 'value_layer', 'context')
    n = 2
    ext = (8,)
    periodic = False
    buffer = 1
    rounds = 2
    init = 'number'
    dtype = None
    top = 1000

    @property
    def ranks(self):
        return self.n

    def stubs(self, env):
        return V.stubs(env, ints=self.dtype == 'int64')

    def cfg(self):
        b = []
        for e in self.ext:
            b += [0, e]
        return topo.cfg(self.n, b, self.periodic, self.buffer)

    def bounds(self, env):
        b = []
        for i in range(3):
            b += [env.int(f'o{i}', -60, 60), self.ext[i]] if i < len(self.ext) else [0, 0]
        return b

    def make(self, env, b, init, cls='SharedValueLayer'):
        r4 = env.r4
        bt = r4.space.BorderType.Periodic if self.periodic else r4.space.BorderType.Sticky
        args = []
        if self.dtype:
            if env.symbolic:
                args = [self.dtype]
            else:
                import torch
                args = [getattr(torch, self.dtype)]
        return getattr(r4.value_layer, cls)(env.comm, r4.geometry.BoundingBox(*b), bt, self.buffer, init, *args)

    def run(self, env):
        b = self.bounds(env)
        self_init = env.int('init', -self.top, self.top) if self.init == 'number' else 'random'
        vl = self.make(env, b, self_init)
        nd = len(self.ext)
        g = Geo(env, self, b, vl.local_bounds)
        if self.init == 'number':
            val = {c: self_init for c in g.every}
        else:
            val = {}
            for d in env.comm.allgather({c: V.num(env, vl.get(g.pt(c))) for c in g.own}):
                val.update(d)
        outs = [judge(env, self, g, vl, val, 'initially')]
        if self.init == 'random':
            outs = []  # the real random numbers are others
        ctx = env.r4.context.SharedContext(env.comm)
        ctx.add_value_layer(vl)
        for r in range(self.rounds):
            for c in g.every:
                if r == 0 or (sum(c) + r) % 3 == 0:
                    v = env.int(f'c{r}.' + '_'.join(map(str, c)), -self.top, self.top)
                    val[c] = v
                    if c in g.ownset:
                        vl.set(g.pt(c), v)
            if r == 1 and self.n > 1:
                for c in g.halo:
                    vl.set(g.pt(c), env.int(f'junk{env.rank}.' + '_'.join(map(str, c)), -1000, 1000))
            ctx.synchronize(None)
            outs.append(judge(env, self, g, vl, val, f'round {r}'))
        return outs


class Geo:
    """Cells relative to the global origin: a rank's own ones, those of its buffers (unwrapped), all."""

    def __init__(self, env, h, b, lb):
        self.env, self.h, self.b = env, h, b
        nd = self.nd = len(h.ext)
        lb = tuple(lb)
        self.lb = [(int(lb[2 * i] - b[2 * i]), int(lb[2 * i + 1])) for i in range(nd)]
        self.own = list(itertools.product(*[range(lo, lo + e) for lo, e in self.lb]))
        self.ownset = set(self.own)
        self.every = list(itertools.product(*[range(e) for e in h.ext]))
        buf = h.buffer
        self.halo = [c for c in itertools.product(*[range(lo - buf, lo + e + buf) for lo, e in self.lb])
                     if c not in self.ownset and (h.periodic or self.inside(c))]

    def inside(self, c):
        return all(0 <= x < e for x, e in zip(c, self.h.ext))

    def glob(self, c):
        return tuple(x % e for x, e in zip(c, self.h.ext))

    def pt(self, c):
        return V.pt(self.env, [self.b[2 * i] + c[i] for i in range(self.nd)])


def judge(env, h, g, vl, val, tag, exp=None):
    out = []
    exp = exp or (lambda c: val[g.glob(c)])
    where = f'{tag}: rank {env.rank}/{h.n} extents {h.ext} origin {g.b[0:2 * g.nd:2]} periodic {h.periodic} buffer {h.buffer}: '
    for label, cells in (('own-values', g.own), ('buffer-values', g.halo)):
        res = []
        for c in cells:
            try:
                got = V.num(env, vl.get(g.pt(c)))
            except IndexError:
                got = None
            res.append((c, got, exp(c)))
            out.append(got)
        env.check(ops.conj([x[1] is not None and ops.eq(x[1], x[2]) for x in res]), label,
                  lambda: where + ' '.join(f'cell {x[0]} = {x[1]} expected {x[2]};' for x in res))
    if h.n == 1 and h.periodic and min(h.ext) < 3:
        return out
    bad = []
    for c in g.own:
        vals, locs = vl.get_nghs(g.pt(c))
        rows = [locs] if g.nd == 1 else list(locs)
        got = [tuple(int(rows[i][k] - g.b[2 * i]) for i in range(g.nd)) for k in range(len(rows[0]))]
        want = [tuple(x + y for x, y in zip(c, o)) for o in itertools.product((-1, 0, 1), repeat=g.nd)]
        want = sorted(g.glob(q) for q in want if h.periodic or g.inside(q))
        if sorted(g.glob(q) for q in got) != want:
            bad.append((c, False, got, vals))
            continue
        ok = True
        vals = list(vals) if env.symbolic else vals.tolist()
        ok = ops.conj([ok, len(vals) == len(got)] + [ops.eq(v, exp(q)) for v, q in zip(vals, got)])
        bad.append((c, ok, got, vals))
        out.append([got, vals])
    env.check(ops.conj([x[1] for x in bad]), 'ngh-values', lambda: where + ' '.join(f'{x[0]}: {x[2]} {x[3]};' for x in bad))
    return out


CONF = {1: [(4,), (3, 4)], 2: [(8,), (9,), (8, 4), (9, 3)], 3: [(9,), (10,), (9, 4)], 4: [(12,), (8, 6), (7, 7)], 6: [(12, 6), (9, 7)], 9: [(9, 9)]}
MORE = {2: [(11,), (14, 5)], 3: [(11,), (13, 3)], 4: [(13,), (9, 9)], 5: [(20,), (20, 3)], 6: [(18,), (13, 9)], 8: [(16, 8), (17, 9)], 9: [(11, 12)], 12: [(16, 12)]}


def configs(tier):
    conf = {k: list(v) for k, v in CONF.items()}
    bufs = (1, 2)
    if tier == 'thorough':
        bufs = (1, 2, 3)
        for k, v in MORE.items():
            conf[k] = conf.get(k, []) + v
    for per in (False, True):
        for n, exts in conf.items():
            for ext in exts:
                for buf in bufs:
                    if n > 1 and buf >= topo_min(n, ext):
                        continue
                    yield dict(n=n, ext=ext, periodic=per, buffer=buf)


def topo_min(n, ext):
    """Smallest local extent of any dimension that is split (MPI_Dims_create: balanced, non-increasing)."""
    if len(ext) == 1:
        return ext[0] // n
    p = {1: (1, 1), 2: (2, 1), 3: (3, 1), 4: (2, 2), 5: (5, 1), 6: (3, 2), 8: (4, 2), 9: (3, 3), 12: (4, 3)}[n]
    return min(e // q for e, q in zip(ext, p))


def jobs(tier):
    out = []
    for c in configs(tier):
        out.append(Job(SVL, dict(rounds=3 if tier == 'thorough' else 2, **c), traces=1))
        if c['buffer'] == 1:
            out.append(Job(SVL, dict(rounds=1, init='random', **c), traces=1))
    for per in (False, True):
        for n, ext in ((2, (8,)), (3, (9,)), (2, (8, 4)), (4, (6, 6))):
            for dtype, top in (('float64', 1 << 53), ('float32', 1 << 24)):
                if dtype == 'float64' or tier == 'thorough':
                    out.append(Job(SVL, dict(rounds=1, n=n, ext=ext, periodic=per, buffer=1, dtype=dtype, top=top), traces=1))
    return out


def prepare(tier):
    topo.prepare([j.cls(**j.params).cfg() for j in jobs(tier)])
