SPACE2 = '''
from mpi4py import MPI
from repast4py import core, space, context
from repast4py.space import DiscretePoint as DP, ContinuousPoint as CP, BorderType, OccupancyType
from repast4py.geometry import BoundingBox
comm = MPI.COMM_WORLD
class A(core.Agent):
    def __init__(self, i, r, s=0):
        super().__init__(i, 0, r)
        self.s = s
    def save(self):
        return (self.uid, self.s)
    def update(self, s):
        self.s = s
def restore(d):
    return A(d[0][0], d[0][2], d[1])
'''
BUGS = [
 dict(id='s14-z-remainder', property='R12', edits=[('distributed_space.cpp', '''    comm_ = *cart_comm;

    x_remainder = bounds_.x_extent_ % procs_per_dim[0];
    if (num_dims_ > 1) {
        y_remainder = bounds_.y_extent_ % procs_per_dim[1];
        if (num_dims_ == 3) {
            z_remainder = bounds_.z_extent_ % procs_per_dim[2];''', '''    comm_ = *cart_comm;

    x_remainder = bounds_.x_extent_ % procs_per_dim[0];
    if (num_dims_ > 1) {
        y_remainder = bounds_.y_extent_ % procs_per_dim[1];
        if (num_dims_ == 3) {
            z_remainder = bounds_.z_extent_ % procs_per_dim[1];''')],
  needs='a three-dimensional space with a different number of processes in y and z and a z extent that the processes in y do not divide', breaks='local bounds exceed the global bounds in z', ranks=4,
  demo=SPACE2 + '''
g = space.SharedGrid('g', BoundingBox(0, 8, 0, 8, 0, 7), BorderType.Sticky, OccupancyType.Multiple, 1, comm)
b = g.get_local_bounds()
assert b.zmin == 0 and b.zextent == 7, b
'''),
 dict(id='s16-move-back', property='R14', edits=[('distributed_space.h', '''        eraseOOB(agent->aid);
        if (!local_bounds.contains(pt)) {
''', '''        if (!local_bounds.contains(pt)) {
            eraseOOB(agent->aid);
''')],
  needs='an agent that moves out of its local bounds and back in before the synchronization', breaks='the agent is sent to the other rank although it is back', ranks=2,
  demo=SPACE2 + '''
ctx = context.SharedContext(comm)
g = space.SharedGrid('g', BoundingBox(0, 8, 0, 8, 0, 0), BorderType.Sticky, OccupancyType.Multiple, 1, comm)
ctx.add_projection(g)
if comm.rank == 0:
    a = A(1, 0)
    ctx.add(a)
    g.move(a, DP(1, 1))
    g.move(a, DP(6, 1))
    g.move(a, DP(2, 1))
ctx.synchronize(restore)
n = len(list(ctx.agents()))
assert n == (1 if comm.rank == 0 else 0), (comm.rank, n)
'''),
 dict(id='s17-first-agent', property='R15', edits=[('occupancy.h', '    iter->second->erase(agent_iter);\n', '''    // order does not matter, so no need to shift the others
    std::iter_swap(agent_iter, std::prev(iter->second->end()));
    iter->second->pop_back();
''')],
  needs='three or more agents at a location, of which one that is not the last leaves', breaks='get_agent no longer returns the agent that arrived first',
  demo=SPACE2 + '''
g = space.Grid('g', BoundingBox(0, 10, 0, 10, 0, 0), BorderType.Sticky, OccupancyType.Multiple)
ags = [A(i, 0) for i in range(4)]
for a in ags:
    g.add(a)
    g.move(a, DP(3, 3))
g.move(ags[0], DP(4, 4))
assert g.get_agent(DP(3, 3)) is ags[1]
assert list(g.get_agents(DP(3, 3))) == ags[1:]
'''),
 dict(id='s19-tree-ref', property='R17', edits=[('SpatialTree.h', '''         Py_DECREF(*it);
        points.erase(it);
''', '''        points.erase(it);
''')],
  needs='agents that move in or leave a continuous space with single occupancy', breaks='a reference to the location is never released',
  demo=SPACE2 + '''
import sys
s = space.ContinuousSpace('s', BoundingBox(0, 10, 0, 10, 0, 0), BorderType.Sticky, OccupancyType.Single, 10)
a = A(1, 0)
s.add(a)
p = s.move(a, CP(3, 3))
n = sys.getrefcount(p)
for i in range(5):
    s.move(a, CP(i, 4))
assert sys.getrefcount(p) == n, (n, sys.getrefcount(p))
s.remove(a)
assert sys.getrefcount(p) == 2, sys.getrefcount(p)
'''),
 dict(id='s20-two-removals', property='R08', edits=[('context.py', '''                send_data[rank].append(gh.agent.uid)
        recv_data = self.comm.alltoall(send_data)
        for updates in recv_data:
            for removed_id in updates:''', '''                send_data[rank] = [gh.agent.uid]
        recv_data = self.comm.alltoall(send_data)
        for updates in recv_data:
            for removed_id in updates:''')],
  needs='two agents that are ghosts on the same rank and are removed before the same synchronization', breaks='one of the ghosts stays', ranks=2,
  demo=SPACE2 + '''
ctx = context.SharedContext(comm)
ags = [A(i, comm.rank) for i in range(3)]
for a in ags:
    ctx.add(a)
o = 1 - comm.rank
ctx.request_agents([((i, 0, o), o) for i in range(3)], restore)
ctx.synchronize(restore)
if comm.rank == 0:
    ctx.remove(ags[0])
    ctx.remove(ags[2])
ctx.synchronize(restore)
left = [i for i in range(3) if ctx.ghost_agent((i, 0, o)) is not None]
assert left == ([1] if comm.rank == 1 else [0, 1, 2]), (comm.rank, left)
'''),
 dict(id='s22-remote-source', property='R10', edits=[('network.py', '''            v_uid = graph_data.agents[v_id].uid
            if n_vals == 3:
                graph_data.edges.append((u_uid, v_uid, vals[2]))''', '''            v_uid = graph_data.agents[v_id].uid
            if n_vals == 3:
                graph_data.edges.append((v_uid, u_uid, vals[2]))''')],
  needs='a directed network file with an edge with attributes from a node of another rank', breaks='the edge is reversed on the rank of its target', ranks=2,
  demo=SPACE2 + '''
from repast4py.network import read_network
if comm.rank == 0:
    with open('n.txt', 'w') as f:
        f.write('net 1\\n1 0 0\\n2 0 1\\nEDGES\\n1 2 {"w": 3}\\n')
comm.Barrier()
import os
class B(A):
    pass
ctx = context.SharedContext(comm)
p = comm.bcast(os.path.abspath('n.txt'))
read_network(p, ctx, lambda i, t, r, **kw: A(i, r), restore)
g = ctx.get_projection('net').graph
e = [(u.uid[0], v.uid[0], d) for u, v, d in g.edges(data=True)]
assert e == [(1, 2, {'w': 3})], (comm.rank, e)
'''),
 dict(id='s23-rows-kept', property='R23', edits=[('logging.py', '''                for items in all_items:
                    writer.writerows(items)

        self._rows.clear()
''', '''                for items in all_items:
                    writer.writerows(items)

            self._rows.clear()
''')], needs='more than one process and more than one write', breaks='the other ranks rows are written again', ranks=2,
  demo='''
from mpi4py import MPI
from repast4py import logging
import os
comm = MPI.COMM_WORLD
p = comm.bcast(os.path.abspath('t.csv'))
l = logging.TabularLogger(comm, p, ['t', 'r'])
l.log_row(1, comm.rank)
l.write()
l.log_row(2, comm.rank)
l.write()
comm.Barrier()
rows = open(p).read().split()
assert rows == ['t,r', '1,0', '1,1', '2,0', '2,1'], rows
'''),
 dict(id='s24-seed-zero', property='R25', edits=[('parameters.py', "if 'random.seed' in params:", "if params.get('random.seed'):")],
  needs='a random.seed of 0', breaks='the seed is ignored',
  demo='''
from repast4py import parameters, random
open('p.yaml', 'w').write('random.seed: 7\\nx: 1\\n')
parameters.init_params('p.yaml', '{"random.seed": 0}')
assert random.seed == 0, random.seed
'''),
 dict(id='s25-shared-ghost', property='R24', edits=[('checkpoint.py', '''                self.requests[other_uid] = (other_uid, other_local_rank)
                self.ghost_edges.append(edge_tuple_maker(node.uid, other_uid, e_attributes))
''', '''                if other_uid not in self.requests:
                    self.requests[other_uid] = (other_uid, other_local_rank)
                    self.ghost_edges.append(edge_tuple_maker(node.uid, other_uid, e_attributes))
''')], needs='two agents with an edge to the same agent of another rank', breaks='one of the edges is not restored', ranks=2,
  demo=SPACE2 + '''
from repast4py import network, checkpoint
def model():
    ctx = context.SharedContext(comm)
    net = network.UndirectedSharedNetwork('n', comm)
    ctx.add_projection(net)
    return ctx, net
ctx, net = model()
ags = [A(i, comm.rank) for i in range(2)]
for a in ags:
    ctx.add(a)
if comm.rank == 0:
    g = ctx.request_agents([((0, 0, 1), 1)], restore)[0]
    net.add_edge(ags[0], g, w=1)
    net.add_edge(ags[1], g, w=2)
else:
    ctx.request_agents([], restore)
ctx.synchronize(restore)
cp = checkpoint.Checkpoint()
cp.save_agents(ctx.agents())
cp.save_network(net, comm.rank)
ctx, net = model()
for a in cp.restore_agents(restore):
    ctx.add(a)
cp.restore_network(ctx, net, restore)
e = sorted((u.uid, v.uid, d['w']) for u, v, d in net.graph.edges(data=True))
assert sorted(x[2] for x in e) == [1, 2], (comm.rank, e)
'''),
]
