BUGS = [
 dict(id='s01-reschedule-lost', property='R01', edits=[('schedule.py', '''            evt()
            evt.reschedule(queue)
            next_idx += 1
            if self.interrupted:
                interrupted = True
                break
''', '''            evt()
            next_idx += 1
            if self.interrupted:
                interrupted = True
                break
            evt.reschedule(queue)
''')], needs='a repeating event that schedules another event for the tick that is executing', breaks='the repeating event is not rescheduled after it interrupted its tick',
  demo='''
from mpi4py import MPI
from repast4py import schedule
r = schedule.init_schedule_runner(MPI.COMM_WORLD)
seen = []
def rep():
    seen.append(r.tick())
    if r.tick() == 2:
        r.schedule_event(2, lambda: seen.append('x'))
r.schedule_repeating_event(1, 1, rep)
r.schedule_stop(4)
r.execute()
assert seen == [1, 2, 'x', 3, 4], seen
'''),
 dict(id='s02-priority-rounded', property='R02', edits=[('schedule.py', 'self.prioritized.sort(key=lambda evt: evt.priority)', 'self.prioritized.sort(key=lambda evt: round(evt.priority, 1))')],
  needs='priorities that differ by less than 0.1, scheduled in the reverse order', breaks='close priorities are treated as equal',
  demo='''
from mpi4py import MPI
from repast4py import schedule
r = schedule.init_schedule_runner(MPI.COMM_WORLD)
seen = []
for p in (1.12, 1.1, 1.31, 1.3):
    r.schedule_event(1, lambda p=p: seen.append(p), schedule.PriorityType.BY_PRIORITY, p)
r.schedule_stop(2)
r.execute()
assert seen == sorted(seen) and len(seen) == 4, seen
'''),
 dict(id='s03-void-same-tick', property='R03', edits=[('schedule.py', '''        for evt in evts:
            self.size_ -= 1
            evt()
''', '''        for evt, call in [(e, e.evt) for e in evts]:
            self.size_ -= 1
            call()
''')], needs='an event that voids another event pending in the executing tick', breaks='the voided event still executes in the executing tick',
  demo='''
from mpi4py import MPI
from repast4py import schedule
r = schedule.init_schedule_runner(MPI.COMM_WORLD)
seen = []
PT = schedule.PriorityType
r.schedule_event(1, lambda: b.void(), PT.BY_PRIORITY, 0)
b = r.schedule_event(1, lambda: seen.append('b'), PT.BY_PRIORITY, 1)
r.schedule_event(1, lambda: seen.append('c'), PT.BY_PRIORITY, 2)
r.schedule_stop(2)
r.execute()
assert seen == ['c'], seen
'''),
 dict(id='s04-lock-step', property='R04', ranks=2, edits=[('schedule.py', '''            global_next_tick = self.comm.allreduce(self.next_tick, op=MPI.MIN)
            if self.next_tick == global_next_tick:
''', '''            global_next_tick = self.comm.allreduce(self.next_tick, op=MPI.MIN)
            if int(self.next_tick) == int(global_next_tick):
''')], needs='ranks whose next ticks differ by less than one', breaks='a rank executes a later tick in the same round as another rank an earlier one',
  demo='''
from mpi4py import MPI
from repast4py import schedule
comm = MPI.COMM_WORLD
r = schedule.init_schedule_runner(comm)
rounds = []
al = comm.allreduce
class C:
    def __getattr__(self, n): return getattr(comm, n)
    def allreduce(self, *a, **k):
        rounds.append(None)
        return comm.allreduce(*a, **k)
r.comm = C()
seen = []
def ev():
    seen.append((len(rounds), r.tick()))
r.schedule_event(1.25 if comm.rank == 0 else 1.75, ev)
r.schedule_stop(3)
r.execute()
s = comm.allgather(seen)
a, b = s[0][0], s[1][0]
assert (a[0] < b[0]) == (a[1] < b[1]), s
'''),
 dict(id='s05-restore-counter', property='R05', edits=[('checkpoint.py', 'runner.schedule.counter = itertools.count(last_count + 1)', "runner.schedule.counter = itertools.count(len(schedule_state['evts']))")],
  needs='a restored schedule to which an event with FIRST or LAST priority is added for the tick of a restored one, after earlier events were executed', breaks='the added event precedes the restored one that was scheduled before it',
  demo='''
from mpi4py import MPI
from repast4py import schedule, checkpoint
PT = schedule.PriorityType
r = schedule.init_schedule_runner(MPI.COMM_WORLD)
for i in range(6):
    r.schedule_event(1, lambda: None)
r.schedule_event(5, lambda: None, PT.FIRST, metadata={'n': 'a'})
ck = checkpoint.Checkpoint()
r.schedule_stop(2)
r.execute()
ck.save_schedule()
seen = []
r = ck.restore_schedule(MPI.COMM_WORLD, lambda m: (lambda: seen.append(m['n'])))
r.schedule_event(5, lambda: seen.append('b'), PT.FIRST)
r.schedule_stop(6)
r.execute()
assert seen == ['a', 'b'], seen
'''),
 dict(id='s06-count-zero', property='R06', edits=[('context.py', 'if shuffle or count is not None:', 'if shuffle or count:'), ('context.py', '''            if count is not None:
                lst = lst[:count]''', '''            if count:
                lst = lst[:count]''')], needs='agents(count=0)', breaks='a count of zero returns all agents',
  demo='''
from mpi4py import MPI
from repast4py import context, core
c = context.SharedContext(MPI.COMM_WORLD)
for i in range(3):
    c.add(core.Agent(i, 0, 0))
assert len(list(c.agents(count=0))) == 0
assert len(list(c.agents(count=2))) == 2
'''),
 dict(id='s07-arrivals-of-two-ranks', property='R07', ranks=3, edits=[('context.py', '''        for data_list in recv_data:
            for data in data_list:
                # agent_data_list''', '''        for data_list in recv_data:
            arrived_ghosts = []
            for data in data_list:
                # agent_data_list'''), ('context.py', '''                    if agent.uid in self._agent_manager._ghost_agents:
                        ghosts_to_remove.append(agent.uid)
                    # print("Adding", agent.id)''', '''                    if agent.uid in self._agent_manager._ghost_agents:
                        arrived_ghosts.append(agent.uid)
                    # print("Adding", agent.id)'''), ('context.py', '''                self.bounded_projs[proj_data[0]]._move_oob_agent(agent, proj_data[1])
''', '''                self.bounded_projs[proj_data[0]]._move_oob_agent(agent, proj_data[1])
            if arrived_ghosts:
                ghosts_to_remove[:] = arrived_ghosts
''')], needs='agents that are ghosts on a rank arrive there from two other ranks in the same synchronization', breaks='the agent of the first rank stays a ghost on the rank where it is local now', demo='''
from mpi4py import MPI
from repast4py import context, core, space, network
from repast4py.space import DiscretePoint as DP, BorderType, OccupancyType
from repast4py.geometry import BoundingBox
comm = MPI.COMM_WORLD
class A(core.Agent):
    def __init__(self, i, r):
        super().__init__(i, 0, r)
    def save(self): return (self.uid,)
    def update(self): pass
def mk(d): return A(d[0][0], d[0][2])
c = context.SharedContext(comm)
g = space.SharedGrid('g', BoundingBox(0, 30, 0, 0, 0, 0), BorderType.Sticky, OccupancyType.Multiple, 0, comm)
c.add_projection(g)
a = A(0, comm.rank); c.add(a)
g.move(a, DP(10 * comm.rank + 5, 0))
c.request_agents([((0, 0, 0), 0), ((0, 0, 2), 2)] if comm.rank == 1 else [], mk)
c.synchronize(mk)
if comm.rank != 1:
    g.move(a, DP(15, 0))
c.synchronize(mk)
if comm.rank == 1:
    assert c.size()[-1] == 3
    assert [c.ghost_agent((0, 0, r)) for r in (0, 2)] == [None, None]
'''),
 dict(id='s09-update-ghost-side', property='R09', ranks=2, edits=[('network.py', '''        if (u_agent.local_rank == self.rank and v_agent.local_rank != self.rank) or \\
           (u_agent.local_rank != self.rank and v_agent.local_rank == self.rank):
            self.edges_to_update.add(edge_key)''', '''        if (u_agent.local_rank == self.rank and v_agent.local_rank != self.rank) or \\
           (u_agent.local_rank != self.rank and v_agent.local_rank < self.rank):
            self.edges_to_update.add(edge_key)''')], needs='updating an edge whose first end is the ghost', breaks='the update does not reach the other rank',
  demo='''
from mpi4py import MPI
from repast4py import context, core, network
comm = MPI.COMM_WORLD
class A(core.Agent):
    def __init__(self, i, r):
        super().__init__(i, 0, r)
    def save(self): return (self.uid,)
    def update(self): pass
def mk(d): return A(d[0][0], d[0][2])
c = context.SharedContext(comm)
n = network.DirectedSharedNetwork('n1', comm)
c.add_projection(n)
c.add(A(0, comm.rank))
gh = c.request_agents([((0, 0, 1), 1)] if comm.rank == 0 else [], mk)
if comm.rank == 0:
    n.add_edge(gh[0], c.agent((0, 0, 0)), weight=1)
c.synchronize(mk)
if comm.rank == 0:
    n.update_edge(c.ghost_agent((0, 0, 1)), c.agent((0, 0, 0)), weight=5)
c.synchronize(mk)
w = [d['weight'] for _, _, d in n.graph.edges(data=True)]
assert w == [5], (comm.rank, w)
'''),
 dict(id='s11-vl-3d-inside', property='R19', edits=[('value_layer.py', '''        self.borders._transform(pt, self.tpt)
        # npt is a np array
        npt = self.tpt.coordinates + self.pt_translation
        return self.grid[npt[2], npt[1], npt[0]]
''', '''        tpt = pt
        c = pt.coordinates
        if not (self.min_max[0] <= c[0] <= self.min_max[1] and self.min_max[2] <= c[1] <= self.min_max[3]):
            self.borders._transform(pt, self.tpt)
            tpt = self.tpt
        # npt is a np array
        npt = tpt.coordinates + self.pt_translation
        return self.grid[npt[2], npt[1], npt[0]]
''')], needs='reading a three-dimensional value layer at a location that is out of bounds in z only', breaks='the border policy is not applied: another cell is read',
  demo='''
from repast4py.value_layer import ValueLayer
from repast4py.space import BorderType, DiscretePoint as DP
from repast4py.geometry import BoundingBox
v = ValueLayer(BoundingBox(0, 4, 0, 4, 2, 6), BorderType.Sticky, 0)
v.set(DP(1, 1, 2), 5)
assert v.get(DP(1, 1, 1)) == 5
'''),
 dict(id='s12-ngh-fast-path', property='R22', edits=[('geometry.py', '''    x_pts = pt[0] + _xoffset_2d
    y_pts = pt[1] + _yoffset_2d

    x_idxs''', '''    x_pts = pt[0] + _xoffset_2d
    y_pts = pt[1] + _yoffset_2d

    if pt[0] > min_max[0] and pt[0] < min_max[1] and pt[1] > min_max[2] and pt[1] <= min_max[3]:
        return np.stack((y_pts, x_pts), axis=0) if pytorch_order else np.stack((x_pts, y_pts), axis=0)

    x_idxs''')],
  needs='a point at the upper y end, but not in a corner', breaks='neighbors above the upper y bound are returned',
  demo='''
import numpy as np
from repast4py.geometry import find_2d_nghs_sticky
n = find_2d_nghs_sticky(np.array([5, 9, 0]), np.array([0, 9, 0, 9]))
assert n.shape == (2, 6) and n[1].max() == 9, n
'''),
]
