"""R11: border policies of the compiled spaces and border classes (instrumented C++)."""
from lib.harness import Harness
from lib.runner import Job
from lib.llsym.lltypes import conj, disj, neg, ite, implies

LBL = ('x', 'y', 'z')


def space(env, kind, name, box, border, occupancy='Multiple', tree=100):
    sp = env.r4.space
    b, o = getattr(sp.BorderType, border), getattr(sp.OccupancyType, occupancy)
    if kind == 'grid':
        return sp.Grid(name=name, bounds=box, borders=b, occupancy=o)
    return sp.ContinuousSpace(name=name, bounds=box, borders=b, occupancy=o, tree_threshold=tree)


def symbox(env, h, nd):
    """Origin and extent: constants, or symbolic within (lo, hi)."""
    org, ext = [], []
    for i in range(3):
        if i >= nd:
            org.append(0), ext.append(0)
            continue
        o, e = h.org[i], h.ext[i]
        org.append(env.int(f'o{LBL[i]}', *o) if isinstance(o, (list, tuple)) else o)
        ext.append(env.int(f'e{LBL[i]}', *e) if isinstance(e, (list, tuple)) else e)
    return org, ext


def coord(env, h, name):
    if h.kind == 'grid':
        return env.int(name, -h.mag, h.mag)
    return env.dbl_raw(name, -h.mag, h.mag, h.k)


def point(env, h, name, nd, junk=True):
    """A point of an nd space; the unused coordinates are what the user happens to give."""
    return [coord(env, h, f'{name}{LBL[i]}') if h.vary is None or h.vary == i else h.others[i] for i in range(nd)] + [3 if junk and h.junk else 0] * (3 - nd)


def judge(env, h, pt, got, org, ext, nd):
    for i in range(3):
        v, c, lo = pt[i], got[i], org[i]
        if i >= nd:
            env.check(c == 0, 'unused-dimension', lambda: f'{pt} -> {got}')
            continue
        hi = lo + ext[i]
        env.check(conj(c >= lo, c < hi), 'inside', lambda: f'{pt} -> {got} in {org} {ext}')
        inside = conj(v >= lo, v < hi)
        if h.border == 'Sticky':
            if h.kind == 'grid':
                want = ite(v < lo, lo, ite(v >= hi, hi - 1, v))
                env.check(c == want, 'nearest', lambda: f'{pt} -> {got} in {org} {ext}')
            else:
                env.check(implies(v < lo, c == lo), 'nearest', lambda: f'{pt} -> {got} in {org} {ext}')
                # the highest valid coordinate is 1e-8 (or one representable number) below the bound
                env.check(implies(v >= hi, c >= hi - h.eps), 'nearest', lambda: f'{pt} -> {got} in {org} {ext}')
                env.check(implies(inside, disj(c == v, conj(c < v, c >= hi - h.eps))), 'identity', lambda: f'{pt} -> {got} in {org} {ext}')
        elif h.kind == 'grid':
            env.check(implies(inside, c == v), 'identity', lambda: f'{pt} -> {got} in {org} {ext}')
            # c is congruent to v: found by the solver as an integer multiple of the extent
            env.check(env_cong(v - c, ext[i]), 'congruent', lambda: f'{pt} -> {got} in {org} {ext}')
        else:
            t = h.tol
            near = lambda a, b: conj(a - b <= t, b - a <= t)
            env.check(implies(inside, near(c, v)), 'identity', lambda: f'{pt} -> {got} in {org} {ext}')
            e = ext[i]
            env.check(disj(*[near(c + m * e, v) for m in h.turns(e)]), 'congruent', lambda: f'{pt} -> {got} in {org} {ext}')


def env_cong(d, e):
    """d is a multiple of e (both integers)"""
    r = d % e
    return r == 0


class Move(Harness):
    """kind grid|cont, border, org/ext: per dimension a number or an interval of symbolic values, mag: |coordinate| bound
    (cont: in units of 2^-k). prior: the space was used for other points before."""
    engine = 'll'
    vary, others = None, ()      # only one coordinate is symbolic
    prior = False
    junk = True
    k = 0
    tol = 0.0
    eps = 1.0001e-8

    def turns(self, e):
        m = int(self.mag / 2 ** self.k / e) + 3
        return range(-m, m + 1)

    def run(self, env):
        nd = len(self.ext)
        org, ext = symbox(env, self, nd)
        b = []
        for i in range(3):
            b += [org[i], ext[i]]
        sp, core = env.r4.space, env.r4.core
        P = sp.DiscretePoint if self.kind == 'grid' else sp.ContinuousPoint
        s = space(env, self.kind, 's', env.r4.geometry.BoundingBox(*b), self.border, tree=50)
        a = core.Agent(0, 0, 0)
        s.add(a)
        if self.prior:
            s.get_num_agents(P(7, 8, 9)) if hasattr(s, 'get_num_agents') else None
            list(s.get_agents(P(2, 5, 6)))
            c = core.Agent(1, 0, 0)
            s.add(c)
            s.move(c, P(*point(env, self, 'p', nd)))
        pt = point(env, self, 'c', nd)
        r = s.move(a, P(*pt))
        got = env.arr(r.coordinates)
        judge(env, self, pt, got, org, ext, nd)
        loc = env.arr(s.get_location(a).coordinates)
        env.check(conj(*[x == y for x, y in zip(loc, got)]), 'location', lambda: f'{loc} {got}')
        return [got]


class Policy(Harness):
    """The border classes the value layers use: one transform into another point, twice."""
    engine = 'll'
    vary = None
    kind = 'grid'
    junk = False

    def run(self, env):
        nd = len(self.ext)
        org, ext = symbox(env, self, nd)
        b = []
        for i in range(3):
            b += [org[i], ext[i]]
        sp = env.r4.space
        pol = (sp.GridStickyBorders if self.border == 'Sticky' else sp.GridPeriodicBorders)(env.r4.geometry.BoundingBox(*b))
        ret = sp.DiscretePoint(0, 0, 0)
        out = []
        for n in ('p', 'c')[2 - self.times:]:
            pt = point(env, self, n, nd)
            pol._transform(sp.DiscretePoint(*pt), ret)
            got = env.arr(ret.coordinates)
            judge(env, self, pt, got, org, ext, nd)
            out.append(got)
        return out


FUNCTIONS = ['borders.h: StickyBorders::transform (grid, continuous)', 'borders.h: transformX/transformXY/transformXYZ, PeriodicBorders::transform',
             'grid.h: BaseGrid::move', 'cspace.h: BaseCSpace::move', 'space.h: BaseSpace::add/getLocation/getAgentsAt', 'geometry.cpp: BoundingBox, create_point, point_equals, update_point',
             'spacemodule.cpp: Grid_init/move/get_location, ContinuousSpace_init/move/get_location, GridStickyBorders_transform, GridPeriodicBorders_transform (compiled from the working tree, executed as instrumented LLVM IR)']
BOUNDS = {'quick': ['grids: |coordinate| <= 2^40, symbolic origin |o| <= 2^20; sticky: symbolic extents 1..2^20; periodic: symbolic extents 1..6 (1D), listed extents (2D, 3D)',
                    'continuous: coordinates multiples of 2^-3 with |c| <= 40 (exact), i * 2^-k with |i| up to 2^53 for k = 20..134 (rounding; in 2D and 3D one coordinate at a time), bounds up to 2^31; extents of 1 in any dimension',
                    'one earlier move and two earlier lookups (prior)', 'congruence of continuous points: tolerance 2^-50 relative to the bounds of the rounding jobs, exact otherwise']}
BOUNDS['thorough'] = BOUNDS['quick'] + ['thorough: extents 1..40 symbolic in 1D periodic grids, 2D with symbolic extents 1..4']
OUTSIDE = ['NaN and infinite coordinates', 'coordinates beyond 2^53 (periodic grids use doubles)', 'SharedGrid/SharedContinuousSpace use the same border code; their routing is R14']
ASSUMPTIONS = ['clang -O1 LLVM IR of the sources equals their meaning; doubles are IEEE 754 round to nearest even', 'CPython/numpy are not encoded']
LABELS = ['inside', 'nearest', 'identity', 'congruent', 'unused-dimension', 'location']


def jobs(tier):
    J = []
    M = 1 << 40
    O = (-(1 << 20), 1 << 20)
    for nd in (1, 2, 3):
        for prior in (False, True):
            J.append(Job(Move, dict(kind='grid', border='Sticky', org=[O] * nd, ext=[(1, 1 << 20)] * nd, mag=M, prior=prior)))
            J.append(Job(Move, dict(kind='grid', border='Periodic', org=[O] * nd, ext=[7, 5, 4][:nd] if nd > 1 else [(1, 6)], mag=M if nd < 3 else 1 << 30, prior=prior)))
            J.append(Job(Move, dict(kind='cont', border='Sticky', org=[-3, 2, 0][:nd], ext=[7, 5, 4][:nd], mag=320, k=3, prior=prior)))
            J.append(Job(Move, dict(kind='cont', border='Periodic', org=[-3, 2, 0][:nd], ext=[7, 5, 4][:nd], mag=320, k=3, prior=prior)))
        J.append(Job(Policy, dict(border='Sticky', org=[O] * nd, ext=[(1, 1 << 20)] * nd, mag=M, times=2)))
        J.append(Job(Policy, dict(border='Periodic', org=[O] * nd, ext=[6, 3, 5][:nd], mag=M if nd < 3 else 1 << 30, times=2)))
    # rounding: |coordinate| = mag / 2^k
    for o, e, k, mag in ((0, 1, 52, 1 << 53), (-3, 7, 50, 1 << 53), (0, 10, 60, 1 << 53), (0, 100, 134, 1 << 53), (0, 3, 62, 1 << 12)):
        J.append(Job(Move, dict(kind='cont', border='Periodic', org=[o], ext=[e], mag=mag, k=k, tol=2.0 ** -49 * (abs(o) + e))))
        J.append(Job(Move, dict(kind='cont', border='Sticky', org=[o], ext=[e], mag=mag, k=k)))
    for o, e, k in ((0, 1 << 31, 20), (0, (1 << 28) + 5, 24), (-(1 << 30), 1 << 30, 22), (0, 1 << 26, 26), (1 << 27, 1 << 26, 24)):
        J.append(Job(Move, dict(kind='cont', border='Sticky', org=[o], ext=[e], mag=1 << 53, k=k, eps=2.0 ** -20)))
        if o < 1 << 27:
            J.append(Job(Move, dict(kind='cont', border='Periodic', org=[o], ext=[e], mag=1 << 53, k=k, tol=2.0 ** -19)))
    # the same in every dimension of 2D and 3D spaces
    for nd, d in ((2, 0), (2, 1), (3, 0), (3, 1), (3, 2)):
        for o, e, k in ((0, 10, 60), (-3, 7, 50)):
            org, ext, oth = [1] * nd, [4] * nd, [2.5] * nd
            org[d], ext[d] = o, e
            J.append(Job(Move, dict(kind='cont', border='Periodic', org=org, ext=ext, mag=1 << 53, k=k, tol=2.0 ** -49 * (abs(o) + e), vary=d, others=oth)))
            J.append(Job(Move, dict(kind='cont', border='Sticky', org=org, ext=ext, mag=1 << 53, k=k, vary=d, others=oth)))
    # dimensions that are a single cell (or unit) wide
    for ext in ([3, 1], [1, 3], [1, 1], [3, 1, 2], [2, 3, 1], [1, 1, 1]):
        org = [-3, 2, 1][:len(ext)]
        for border in ('Sticky', 'Periodic'):
            J.append(Job(Move, dict(kind='cont', border=border, org=org, ext=ext, mag=64, k=3)))
            J.append(Job(Move, dict(kind='grid', border=border, org=org, ext=ext, mag=1 << 20)))
    if tier == 'thorough':
        for lo in range(1, 41, 10):
            J.append(Job(Move, dict(kind='grid', border='Periodic', org=[O], ext=[(lo, lo + 9)], mag=M)))
        J.append(Job(Move, dict(kind='grid', border='Periodic', org=[O] * 2, ext=[(1, 4)] * 2, mag=1 << 30)))
    return J
