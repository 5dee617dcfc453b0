import importlib.util, os
_s = importlib.util.spec_from_file_location('b2', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'b2.py'))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
SPACE2 = _m.SPACE2
BUGS = [
 dict(id='s26-unit-wide', property='R11', edits=[('borders.h', '''    } else if (bounds_.x_extent_ > 0 && bounds_.y_extent_ > 0) {
        transform_ = &transformXY<PointType>;''', '''    } else if (bounds_.x_extent_ > 0 && bounds_.y_extent_ > 1) {
        transform_ = &transformXY<PointType>;''')],
  needs='a periodic continuous space whose y extent is 1', breaks='points lose their y coordinate',
  demo=SPACE2 + '''
s = space.ContinuousSpace('s', BoundingBox(0, 10, 0, 1, 0, 0), BorderType.Periodic, OccupancyType.Multiple, 100)
a = A(1, 0)
s.add(a)
p = s.move(a, CP(12.5, 0.25))
assert (p.x, p.y) == (2.5, 0.25), p
p = s.move(a, CP(2.5, 1.75))
assert (p.x, p.y) == (2.5, 0.75), p
'''),
 dict(id='s27-far-ids', property='R26', edits=[('core.h', '''        if (a1->id != a2->id) return a1->id < a2->id;
''', '''        int diff = a1->id - a2->id;
        if (diff != 0) return diff < 0;
''')],
  needs='two agents of the same type and rank whose ids differ by a multiple of 2^32 (or by more than 2^31)', breaks='a space takes one agent for the other',
  demo=SPACE2 + '''
s = space.Grid('s', BoundingBox(0, 10, 0, 10, 0, 0), BorderType.Sticky, OccupancyType.Multiple)
a, b = A(7, 0), A(7 + 2 ** 32, 0)
s.add(a)
s.add(b)
s.move(a, DP(1, 1))
s.move(b, DP(2, 2))
assert s.get_location(a) == DP(1, 1), s.get_location(a)
assert s.get_location(b) == DP(2, 2), s.get_location(b)
s.remove(a)
assert s.contains(b) and not s.contains(a)
'''),
 dict(id='s32-one-per-cell', property='R18', edits=[('space.py', '''                    pt._reset3D(x, y, z)
                    agents = self.get_agents(pt)
                    for a in agents:
                        data_list.append((a.save(), (pt.x, pt.y, pt.z)))
''', '''                    pt._reset3D(x, y, z)
                    a = self.get_agent(pt)
                    if a is not None:
                        data_list.append((a.save(), (pt.x, pt.y, pt.z)))
''')],
  needs='a 3D shared grid with two agents in the same cell within the buffer distance of the border', breaks='only one of them is visible on the other rank', ranks=2,
  demo=SPACE2 + '''
ctx = context.SharedContext(comm)
g = space.SharedGrid('g', BoundingBox(0, 8, 0, 4, 0, 4), BorderType.Sticky, OccupancyType.Multiple, 1, comm)
ctx.add_projection(g)
b = g.get_local_bounds()
for i in range(2):
    a = A(i, comm.rank)
    ctx.add(a)
    g.move(a, DP(3 if comm.rank == 0 else 4, 1, 1))
ctx.synchronize(restore)
x = 4 if comm.rank == 0 else 3
got = sorted(a.uid for a in g.get_agents(DP(x, 1, 1)))
assert got == [(0, 0, 1 - comm.rank), (1, 0, 1 - comm.rank)], (comm.rank, got)
'''),
 dict(id='s33-z-draw', property='R27', edits=[('space.py', '''                z = rng.uniform(local_bounds.zmin, local_bounds.zmin + local_bounds.zextent)
''', '''                z = rng.uniform(local_bounds.zmin, max(local_bounds.zmin, local_bounds.zextent))
''')],
  needs='a 3D continuous space whose z origin is not 0', breaks='some points of the local bounds are never drawn, or points beyond the bounds are', ranks=1,
  demo=SPACE2 + '''
import numpy as np
g = space.SharedCSpace('g', BoundingBox(0, 8, 0, 8, 10, 8), BorderType.Sticky, OccupancyType.Multiple, 1, comm, 100)
rng = np.random.default_rng(1)
zs = [g.get_random_local_pt(rng).z for _ in range(200)]
assert 10 <= min(zs) < 12 and 16 < max(zs) < 18, (min(zs), max(zs))
'''),
 dict(id='s35-read-side', property='R21', edits=[('value_layer.py', '''        self.write_layer._synch_ghosts()
        self.read_layer._synch_ghosts()
''', '''        # nothing is written to the read layer
        self.write_layer._synch_ghosts()
''')],
  needs='a set before a swap with the synchronization after the swap', breaks='the buffer of the read layer is out of date', ranks=2,
  demo=SPACE2 + '''
from repast4py.value_layer import ReadWriteValueLayer
v = ReadWriteValueLayer(comm, BoundingBox(0, 8, 0, 4, 0, 0), BorderType.Sticky, 1, 0)
mine, theirs = (3, 4) if comm.rank == 0 else (4, 3)
v.set(DP(mine, 1), 10 + mine)
v.swap_layers()
v._synch_ghosts()
assert float(v.get(DP(theirs, 1))) == 10 + theirs, v.get(DP(theirs, 1))
'''),
]
