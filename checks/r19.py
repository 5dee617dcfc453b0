"""R19: a value layer stores per-location values."""
import itertools
import numpy as np
from lib.harness import Harness
from lib.runner import Job
from lib.pysym import ops
from checks import vl_common as V

FUNCTIONS = ['value_layer.ValueLayer.__init__/get/set/get_nghs', 'value_layer._Impl1D/_Impl2D/_Impl3D', 'geometry.find_*_nghs_*']
BOUNDS = {
    'quick': ['1D extents 1 and 4, 2D 3x2 and 1x3, 3D 2x2x3; symbolic origins in [-50, 50]; 2 writes of symbolic values at symbolic locations, one of them up to an extent outside the bounds; every cell read back',
              'neighborhood query of every symbolic location inside, symbolic content of every cell; sticky and periodic'],
    'thorough': ['1D extents 1 to 5, 2D up to 3x4, 3D up to 3x2x3, 3 writes (2 in 3D), locations up to two extents outside']}
ASSUMPTIONS = ['torch tensors behave like numpy arrays (sampled paths are re-run with torch)', 'the compiled border policies and points satisfy R11']
OUTSIDE = ['rounding of stored values (any number type that stores the value exactly)', 'assignments through the grid tensor']
LABELS = ['last-written', 'read-outside', 'neighbor-values', 'neighbor-locations']


class VL(Harness):
    name = 'value-layer-get-set'
    modules = ('core', 'geometry', 'space', 'value_layer')
    ext = (3,)
    periodic = False
    nops = 2
    far = 1

    def stubs(self, env):
        return V.stubs(env)

    def layer(self, env, init):
        ext = tuple(self.ext)
        nd = len(ext)
        lo = [env.int(f'min{i}', -50, 50) for i in range(nd)]
        bt = env.r4.space.BorderType
        vl = env.r4.value_layer.ValueLayer(V.box(env, lo, ext), bt.Periodic if self.periodic else bt.Sticky, init)
        return ext, nd, lo, vl

    def point(self, env, name, lo, ext, outside):
        p = []
        for i in range(len(ext)):
            d = self.far * ext[i] if outside else 0
            o = env.int(f'{name}.{i}', -d, ext[i] - 1 + d)
            p.append(lo[i] + o)
        return p

    def run(self, env):
        init = env.int('init', -1000, 1000)
        ext, nd, lo, vl = self.layer(env, init)
        cell = {c: init for c in V.cells(ext)}
        hist = []
        for k in range(self.nops):
            p = self.point(env, f'w{k}', lo, ext, k == 0)
            v = env.int(f'v{k}', -1000, 1000)
            vl.set(V.pt(env, p), v)
            c = tuple(V.wrap(p[i], lo[i], ext[i], self.periodic) for i in range(nd))
            cell[c] = v
            hist.append((p, c, v))
        for c in V.cells(ext):
            got = V.num(env, vl.get(V.pt(env, [lo[i] + c[i] for i in range(nd)])))
            env.check(ops.eq(got, cell[c]), 'last-written', lambda: f'bounds {lo}+{ext} writes {hist}: cell {c} = {got}, expected {cell[c]}')
        # corners just outside
        outs = []
        for s in itertools.product((-1, 0, 1), repeat=nd):
            q = [lo[i] + (-1 if s[i] < 0 else ext[i] if s[i] > 0 else 0) for i in range(nd)]
            if self.periodic:
                c = tuple((-1 if s[i] < 0 else ext[i] if s[i] > 0 else 0) % ext[i] for i in range(nd))
            else:
                c = tuple((0 if s[i] <= 0 else ext[i] - 1) for i in range(nd))
            got = V.num(env, vl.get(V.pt(env, q)))
            outs.append(got)
            env.check(ops.eq(got, cell[c]), 'read-outside', lambda: f'bounds {lo}+{ext} writes {hist}: value at {q} = {got}, expected {cell[c]}')
        return outs


class Ngh(VL):
    name = 'value-layer-neighbors'

    def run(self, env):
        ext, nd, lo, vl = self.layer(env, 0)
        cell = {}
        for c in V.cells(ext):
            v = env.int('c' + '_'.join(map(str, c)), -1000, 1000)
            cell[c] = v
            vl.set(V.pt(env, [lo[i] + c[i] for i in range(nd)]), v)
        p = self.point(env, 'p', lo, ext, False)
        vals, nghs = vl.get_nghs(V.pt(env, p))
        rel = [int(p[i] - lo[i]) for i in range(nd)]
        exp = []
        for o in itertools.product((-1, 0, 1), repeat=nd):
            q = [rel[i] + o[i] for i in range(nd)]
            if self.periodic:
                exp.append(tuple(q[i] % ext[i] for i in range(nd)))
            elif all(0 <= q[i] < ext[i] for i in range(nd)):
                exp.append(tuple(q))
        rows = [nghs] if nd == 1 else list(nghs)
        env.check(len(rows) == nd, 'neighbor-locations', lambda: f'{nghs}')
        got = [tuple(int(rows[i][k] - lo[i]) for i in range(nd)) for k in range(len(rows[0]))]
        env.check(sorted(got) == sorted(exp), 'neighbor-locations', lambda: f'bounds {lo}+{ext}, neighbors of {rel}: {got}, expected {sorted(exp)}')
        vals = list(vals) if env.symbolic else vals.tolist()
        env.check(len(vals) == len(got) and ops.conj([ops.eq(v, cell.get(g, 10 ** 6)) for v, g in zip(vals, got)]), 'neighbor-values',
                  lambda: f'neighbors of {rel} in {ext}: {got} values {vals} contents {cell}')
        return [got, vals]


def jobs(tier):
    out = []
    if tier == 'quick':
        exts, nops, far = [(1,), (4,), (3, 2), (1, 3), (2, 2, 3)], 2, 1
    else:
        exts, nops, far = [(1,), (2,), (3,), (5,), (3, 2), (1, 3), (2, 4), (3, 4), (2, 2, 3), (3, 2, 3)], 3, 2
    for ext in exts:
        for per in (False, True):
            n = nops if len(ext) < 3 else 2
            pins = [{}]
            if len(ext) > 1:
                pins = [{'w1.0': i} for i in range(ext[0])]
            if len(ext) == 3:
                pins = [{**p, 'w1.1': i} for p in pins for i in range(ext[1])]
            for pin in pins:
                out.append(Job(VL, dict(ext=ext, periodic=per, nops=n, far=far if len(ext) < 3 else 1), pin=pin, traces=2))
            out.append(Job(Ngh, dict(ext=ext, periodic=per), traces=2))
    return out
