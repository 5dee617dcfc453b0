"""R27: random local points lie in the rank's local bounds and can be any point of them."""
from itertools import permutations
from lib.runner import Job
from lib import topo
from lib.pysym.ops import conj, disj, ite
from checks.ctx_common import SpaceHarness, make_agent_class, val, cfgs_of

FUNCTIONS = ['space.SharedGrid.get_random_local_pt/_create_random_pt_func', 'space.SharedCSpace.get_random_local_pt/_create_random_pt_func', 'geometry.get_num_dims',
             'context.SharedContext.synchronize (a drawn location is local)']
BOUNDS = {'quick': ['1, 2, 3, 4, 6 and 8 ranks, 1-3 dimensions, extents up to 10^6, positive and negative origins, sticky and periodic, grids and continuous spaces',
                    'all outcomes of the generator: integers of the asked range; continuous: multiples of 1/4 of it', '1 arbitrary draw and, for any local location, the draws that lead to it'],
          'thorough': ['also 9, 12 and 16 ranks']}
ASSUMPTIONS = ['numpy.random.Generator: integers(a, b) is any integer in [a, b), uniform(a, b) any number in [a, b) (numpy can round uniform(a, b) to b with probability 2^-53 or so; not modelled)',
               'the compiled _space module is replaced by its contract (decided by R11 - R17); local bounds come from the freshly built extension']
OUTSIDE = ['the distribution of the points']
LABELS = ['inside', 'any', 'stays', 'unused-dimension']


class Gen:
    """A generator whose draws are arbitrary, or the wanted values where they are possible."""

    def __init__(self, env, name, want=()):
        self.env, self.name, self.want, self.n = env, name, list(want), 0

    def draw(self, lo, hi, any_):
        self.n += 1
        if self.want:
            w = self.want.pop(0)
            return ite(conj([w >= lo, w < hi]), w, lo)
        return any_(f'{self.name}.{self.n}')

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        if isinstance(low, (list, tuple)):
            return [self.integers(a, b, None, dtype, endpoint) for a, b in zip(low, high)]
        hi = int(high) + (1 if endpoint else 0)
        return self.draw(int(low), hi, lambda n: self.env.int(n, int(low), hi - 1))

    def uniform(self, low=0.0, high=1.0, size=None):
        if isinstance(low, (list, tuple)):
            return [self.uniform(a, b) for a, b in zip(low, high)]

        def any_(n):
            v = self.env.tick(n, low, high, 4)
            self.env.assume(val(v < high))
            return v
        return self.draw(low, high, any_)


class Points(SpaceHarness):
    name = 'points'

    def run(self, env):
        sp = self.make_space(env, env.comm)
        ctx = env.r4.context.SharedContext(env.comm)
        ctx.add_projection(sp)
        A, restore = make_agent_class(env.r4)
        b = self.locals_(env, sp)[env.rank]
        me = env.rank

        def inside(p):
            return conj([c for i in range(self.nd) for c in (p[i] >= b[2 * i], p[i] < b[2 * i] + b[2 * i + 1])])
        r = sp.get_random_local_pt(Gen(env, f'draw{me}'))
        got = [r.x, r.y, r.z]
        det = lambda: f'rank {me}/{self.n} {self.bounds} local {b}: {got}'
        env.check(inside(got), 'inside', det)
        env.check(all(got[i] == 0 for i in range(self.nd, 3)), 'unused-dimension', det)
        q = self.pos(env, f'want{me}', b)
        hits = []
        for perm in permutations(range(self.nd)):
            p = sp.get_random_local_pt(Gen(env, 'unused', [q[i] for i in perm]))
            hits.append(conj([p.x == q[0], p.y == q[1], p.z == q[2]]))
        env.check(disj(hits), 'any', lambda: f'rank {me}/{self.n} {self.bounds} local {b}: {q} can not be drawn')
        a = A(me, 0, me, 0)
        ctx.add(a)
        sp.move(a, r)
        ctx.synchronize(restore)
        here = ctx.agent(a.uid)
        env.check(here is a, 'stays', det)
        if here is a:
            l = self.loc(sp, a)
            env.check(conj([x == y for x, y in zip(l, got)]), 'stays', lambda: f'{det()} at {l}')
        return [got]


def jobs(tier):
    J = []

    def add(n, e, per, cs):
        J.append(Job(Points, dict(n=n, bounds=(e + [0] * 6)[:6], periodic=per, buffer=0, cspace=cs)))
    for cs in (False, True):
        for per in (False, True):
            add(1, [-5, 10], per, cs)
            add(1, [3, 10, -7, 4], per, cs)
            add(1, [0, 3, 2, 5, -4, 7], per, cs)
            add(2, [-3, 11], per, cs)
            add(3, [10, 100], per, cs)
            add(2, [0, 9, -5, 7], per, cs)
        add(4, [-1000000, 1000000, 5, 1000], cs, cs)
        add(6, [-4, 13, 1, 11], not cs, cs)
        add(4, [-1, 6, 0, 9, -20, 10], cs, cs)
        add(8, [7, 11, -3, 9, 1, 5], not cs, cs)
        if tier == 'thorough':
            for n in (9, 12, 16):
                add(n, [-7, 40], cs, cs)
                add(n, [-7, 40, 3, 50], not cs, cs)
                add(n, [-7, 40, 3, 50, -60, 70], cs, cs)
    return J


def prepare(tier):
    topo.prepare(cfgs_of(jobs(tier)))
