"""R22: neighbor finders return exactly the adjacent points."""
import numpy as np
from lib.harness import Harness
from lib.runner import Job
from lib.pysym import ops

FUNCTIONS = ['geometry.find_1d/2d/3d_nghs_sticky', 'geometry.find_1d/2d/3d_nghs_periodic', 'geometry.get_num_dims']
BOUNDS = {
    'quick': ['1 to 3 dimensions, symbolic origins in [-10^6, 10^6], symbolic extents in [1, 10^6], every point inside the bounds, both coordinate orders'],
    'thorough': ['1 to 3 dimensions, symbolic origins in [-10^9, 10^9], symbolic extents in [1, 10^9], every point inside the bounds, both coordinate orders']}
ASSUMPTIONS = ['numba.jit compiles to the semantics of the decorated Python/numpy code (sampled paths are re-run with the compiled functions)',
               'coordinates within the bounds do not overflow 64-bit integers']
OUTSIDE = ['points outside the bounds', 'empty dimensions']
LABELS = ['points', 'shape', 'num-dims']


def obj(xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


class Nghs(Harness):
    name = 'neighbors'
    modules = ('geometry',)
    nd = 2
    periodic = False
    order = False
    mag = 10 ** 6

    def stubs(self, env):
        from lib import npstub
        return {'numpy': npstub.NumpyProxy()}

    def run(self, env):
        g = env.r4.geometry
        nd, per = self.nd, self.periodic
        lo = [env.int(f'min{i}', -self.mag, self.mag) for i in range(nd)]
        ex = [env.int(f'ext{i}', 1, self.mag) for i in range(nd)]
        p = [env.int(f'p{i}', -self.mag, 2 * self.mag) for i in range(nd)]
        for i in range(nd):
            env.assume(ops.conj([p[i] >= lo[i], p[i] < lo[i] + ex[i]]))
        mm = [v for i in range(nd) for v in (lo[i], lo[i] + ex[i] - 1)]
        if env.symbolic:
            pt, mmx = obj(p), obj(mm)
        else:
            pt, mmx = np.array(p + [0] * (3 - nd), dtype=np.int64), np.array(mm, dtype=np.int64)
        f = getattr(g, f'find_{nd}d_nghs_{"periodic" if per else "sticky"}')
        before = list(pt)
        got = f(pt, mmx) if nd == 1 else f(pt, mmx, self.order)
        env.check(ops.eq(list(pt), before), 'points', 'the point argument was modified')
        rows = [got] if nd == 1 else list(got)
        env.check(len(rows) == nd and len({len(r) for r in rows}) == 1, 'shape', lambda: f'{got}')
        if nd > 1 and self.order:
            rows = rows[::-1]
        offs = [()]
        for _ in range(nd):
            offs = [(o,) + r for r in offs for o in (-1, 0, 1)]
        # x varies fastest
        exp = []
        for o in sorted(offs, key=lambda o: o[::-1]):
            q = []
            for i in range(nd):
                v = p[i] + o[i]
                if per:
                    hi = lo[i] + ex[i]
                    # congruent modulo the extent, inside: at most 1 beyond
                    if v < lo[i]:
                        v = v + ex[i]
                    elif v >= hi:
                        v = v - ex[i]
                elif bool(v < lo[i]) or bool(v >= lo[i] + ex[i]):
                    q = None
                    break
                q.append(v)
            if q is not None:
                exp.append(q)
        n = len(rows[0])
        env.check(n == len(exp), 'shape', lambda: f'{n} points, expected {len(exp)}')
        for k in range(min(n, len(exp))):
            env.check(ops.conj([ops.eq(rows[i][k], exp[k][i]) for i in range(nd)]), 'points',
                      lambda: f'neighbor {k}: {[rows[i][k] for i in range(nd)]} expected {exp[k]} of {p} in {mm}')
        b = [v for i in range(nd) for v in (lo[i], ex[i])] + [0, 0] * (3 - nd)
        env.check(g.get_num_dims(g.BoundingBox(*b)) == nd, 'num-dims')
        return [list(r) for r in rows]


def jobs(tier):
    mag = 10 ** 6 if tier == 'quick' else 10 ** 9
    out = []
    for nd in (1, 2, 3):
        for per in (False, True):
            for order in ((False,) if nd == 1 else (False, True)):
                out.append(Job(Nghs, dict(nd=nd, periodic=per, order=order, mag=mag), traces=3))
    return out
