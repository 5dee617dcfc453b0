"""R21: writes to a read-write value layer become readable by a swap only."""
from lib.runner import Job
from lib import topo
from checks.r20 import SVL, Geo, judge

FUNCTIONS = ['value_layer.ReadWriteValueLayer.*', 'value_layer.SharedValueLayer.*', 'value_layer._Impl1D/_Impl2D', 'geometry.find_1d/2d_nghs_*',
             'context.SharedContext.add_value_layer/synchronize']
BOUNDS = {'quick': ['all sequences of 4 operations (3 in 2D and on more than two ranks) from {write a symbolic value at any of three locations of different ranks, swap the sides, synchronize}; '
                    '1D and 2D layers on 1, 2, 3 and 4 ranks, sticky and periodic, buffer 1; symbolic origin and values; after the second and the last operation every own and buffered cell '
                    'and every neighborhood is read on every rank'],
          'thorough': ['5 operations (4 in 2D and on more than two ranks), also 6 ranks and buffer 2']}
ASSUMPTIONS = ['as for R20']
OUTSIDE = ['writes through the grid tensors', 'sequences of more operations', 'as for R20']
LABELS = ['own-values', 'buffer-values', 'ngh-values', 'grid-sides']


class RW(SVL):
    name = 'read-write-value-layer'
    nops = 4

    def run(self, env):
        b = self.bounds(env)
        init = env.int('init', -1000, 1000)
        vl = self.make(env, b, init, 'ReadWriteValueLayer')
        g = Geo(env, self, b, vl.read_layer.local_bounds)
        ctx = env.r4.context.SharedContext(env.comm)
        ctx.add_value_layer(vl)
        # a side: the values of all cells, and those that this rank's buffers had at the last synchronization
        sides = [[{c: init for c in g.every}, {c: init for c in g.halo}] for _ in range(2)]
        spots = [g.every[0], g.every[-1], g.every[(len(g.every) - 1) // 2]]
        outs = []
        hist = []
        for k in range(self.nops):
            op = ['write0', 'write1', 'write2', 'swap', 'sync'][env.choice(f'op{k}', 5)]
            hist.append(op)
            if op == 'swap':
                vl.swap_layers()
                sides.reverse()
            elif op == 'sync':
                ctx.synchronize(None)
                for vals, halo in sides:
                    for c in halo:
                        halo[c] = vals[g.glob(c)]
            else:
                c = spots[int(op[-1])]
                v = env.int(f'v{k}', -1000, 1000)
                if c in g.ownset:
                    vl.set(g.pt(c), v)
                sides[1][0][c] = v

            if k < self.nops - 1 and k != 1:
                continue

            def exp(c, s=sides[0]):
                return s[1][c] if c in s[1] and self.n > 1 else s[0][g.glob(c)]
            outs.append(judge(env, self, g, vl, None, '-'.join(hist), exp))
            env.check(vl.read_grid is vl.read_layer.grid and vl.write_grid is vl.write_layer.grid and vl.read_grid is not vl.write_grid,
                      'grid-sides', lambda: '-'.join(hist))
        return outs


def configs(tier):
    conf = [(1, (4,)), (1, (3, 4)), (2, (6,)), (2, (7,)), (2, (4, 3)), (3, (6,)), (4, (5, 4))]
    bufs = (1,)
    if tier == 'thorough':
        conf += [(2, (10,)), (4, (8, 6)), (6, (9, 6))]
        bufs = (1, 2)
    for per in (False, True):
        for n, ext in conf:
            for buf in bufs:
                if min(ext) // 2 < buf and n > 1:
                    continue
                nops = 4 if len(ext) == 1 and n <= 2 else 3
                yield dict(n=n, ext=ext, periodic=per, buffer=buf, nops=nops + (tier == 'thorough'))


def jobs(tier):
    out = []
    for c in configs(tier):
        for i in range(5):
            out.append(Job(RW, c, pin={'op0': i}, traces=1))
    return out


def prepare(tier):
    topo.prepare([RW(**c).cfg() for c in configs(tier)])
