"""Run under mpirun with the real package: prints the topology data of each configuration."""
import json
import sys

cfgs, out = json.load(open(sys.argv[1])), sys.argv[2]
from mpi4py import MPI  # noqa
from repast4py.space import SharedGrid, SharedCSpace, BorderType, OccupancyType, CartesianTopology, BoundingBox  # noqa

world = MPI.COMM_WORLD
res = []
for c in cfgs:
    bb = BoundingBox(*c['bounds'])
    topo = CartesianTopology(world, bb, bool(c['periodic']))
    d = dict(procs=[int(x) for x in topo.procs_per_dim], coords=[int(x) for x in topo.coordinates],
             local=[int(x) for x in topo.local_bounds],
             nghs=[(int(r), [int(x) for x in b]) for r, b in topo.compute_buffer_nghs(c['buffer'])])
    b = BorderType.Periodic if c['periodic'] else BorderType.Sticky
    if c.get('cspace'):
        s = SharedCSpace('s', bb, b, OccupancyType.Multiple, c['buffer'], world, 100)
    else:
        s = SharedGrid('s', bb, b, OccupancyType.Multiple, c['buffer'], world)
    d['buf'] = [(int(r), [int(x) for x in rg]) for r, rg in s._get_buffer_data()]
    d['slocal'] = [int(x) for x in s.get_local_bounds()]
    all_ = world.gather(d, root=0)
    res.append(all_)
    if world.rank == 0:
        json.dump(res, open(out, 'w'))
