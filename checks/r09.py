"""R09: a cross-rank edge exists on both ranks or on none, with equal attributes."""
from lib.runner import Job
from checks.net_common import NetHarness

FUNCTIONS = ['network.SharedNetwork / UndirectedSharedNetwork / DirectedSharedNetwork: add, add_edge, update_edge, remove_edge, clear_edges, remove, _sync_removed, _sync_vertices, _sync_edges, '
             '_synch_ghosts, _pre_synch_ghosts, _agent_moving_rank, _agents_moved_rank, _post_agents_moved_rank',
             'context.SharedContext: add, remove, synchronize, move_agents, request_agents, _update_ghosts, _update_removed_ghosts', 'core.AgentManager.*']
BOUNDS = {'quick': ['2 and 3 ranks, 2 - 3 agents, 1 - 2 networks, directed and undirected',
                    'all histories of 3 - 4 operations (add, update, remove edge, clear edges, request, remove agent, move agent) with synchronizations in between; all weights'],
          'thorough': ['all histories of 4 - 5 operations, 3 agents']}
ASSUMPTIONS = ['mpi4py stub: N simulated ranks with blocking collectives; transmitted data is deep-copied',
               'between two synchronizations an edge is added, updated and removed on one of its ranks only']
OUTSIDE = ['self loops', 'more agents, ranks and operations than stated']
LABELS = ['owner', 'edges', 'edge-attrs', 'edge-ends', 'nodes', 'removed']


class Net(NetHarness):
    name = 'net'


R2 = [[0, 1], [1, 0]]
EDGE = ['add', 'rem', 'upd', 'clr']


def jobs(tier):
    out = []

    def add(**kw):
        for d in (False, True):
            out.append(Job(Net, dict(directed=d, **kw)))
    add(n=2, owners=[0, 1], script='osososos', opset=['add', 'mov', 'rem', 'del'], reqs=R2)
    add(n=2, owners=[0, 1], script='ooosos', opset=EDGE, reqs=R2)
    add(n=2, owners=[0, 1], script='oosoos', opset=['add', 'mov', 'rem', 'upd', 'del'], reqs=R2)
    add(n=2, owners=[0, 1, 1], script='osos', opset=['req', 'add', 'mov', 'rem', 'upd', 'del', 'mv2'], reqs=[[0, 1], [0, 2], [1, 0]])
    add(n=2, owners=[0, 1, 1], script='ooss', opset=['add', 'rem', 'upd', 'clr', 'del'], reqs=[[0, 1], [0, 2], [1, 0]])
    add(n=2, owners=[0, 1, 1], script='ososos', opset=['add', 'rem', 'mov'], reqs=[[0, 1], [0, 2]])
    add(n=3, owners=[0, 1, 2], script='osos', opset=['add', 'mov', 'rem', 'upd', 'del'], reqs=[[0, 1], [2, 0], [1, 2]])
    add(n=2, owners=[0, 1], nets=2, script='ososos', opset=['add', 'mov', 'rem', 'del'], reqs=R2)
    # the two known findings, on their own
    add(n=2, owners=[0, 1], script='os', opset=['mov'], reqs=R2, pre=[['add', 0, 0, 0, 1]], dirty_moves=True)
    add(n=2, owners=[0, 1], script='sos', opset=['mv2'], reqs=R2, pre=[['add', 0, 0, 0, 1]], joint_moves=True)
    if tier == 'thorough':
        for u in range(2):
            pass
        add(n=3, owners=[0, 1, 2], script='ososos', opset=['req', 'add', 'mov', 'del', 'rem', 'upd'], reqs=[[0, 1], [2, 0], [1, 2]])
        add(n=2, owners=[0, 1, 1], script='osooos', opset=['add', 'mov', 'rem', 'upd', 'del'], reqs=[[0, 1], [0, 2], [1, 0]])
        add(n=2, owners=[0, 1], nets=2, script='oosoos', opset=['add', 'mov', 'rem', 'upd', 'clr'], reqs=R2)
        add(n=2, owners=[0, 1], script='osososoos', opset=['add', 'mov', 'rem', 'upd', 'del', 'req'], reqs=R2)
    return out
