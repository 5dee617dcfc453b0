"""R08: synchronization refreshes every ghost, and removal reaches every rank."""
from lib.runner import Job
from lib import topo
from checks.net_common import NetHarness
from checks.ctx_common import cfgs_of

FUNCTIONS = ['context.SharedContext: add, remove, synchronize, request_agents, _send_requests, move_agents, _update_ghosts, _update_removed_ghosts', 'core.AgentManager.*',
             'network.SharedNetwork.* (as far as it creates and releases ghosts)', 'space.SharedGrid/SharedCSpace._pre_synch_ghosts/_synch_ghosts/_process_recv_data']
BOUNDS = {'quick': ['2 and 3 ranks, 2 - 3 agents; no projection, 1 - 2 networks, a grid, a grid and a network',
                    'all histories of 2 - 4 operations (request, state change, remove agent, add/remove edge, move to a rank, move in the space) with synchronizations in between; all states and locations'],
          'thorough': ['longer histories, 3 agents']}
ASSUMPTIONS = ['mpi4py stub: N simulated ranks with blocking collectives; transmitted data is deep-copied',
               'the compiled _space module is replaced by its contract (decided by R11 - R17)',
               'between two synchronizations an edge is changed on one of its ranks only']
OUTSIDE = ['more agents, ranks and operations than stated', 'synchronize(sync_ghosts=False)']
LABELS = ['ghost-state', 'ghost-kept', 'removed', 'state', 'owner', 'request']


class Ghosts(NetHarness):
    name = 'ghosts'


R2 = [[0, 1], [1, 0]]


def jobs(tier):
    out = []

    def add(**kw):
        out.append(Job(Ghosts, kw))
    # requests only
    add(n=2, owners=[0, 1], nets=0, script='oosos', opset=['req', 'sta', 'del', 'mov'])
    add(n=3, owners=[0, 1], nets=0, script='oosos', opset=['req', 'sta', 'del'])
    add(n=2, owners=[0, 1], nets=0, script='ososos', opset=['req', 'sta', 'mov'], reqs=[[0, 1]])
    # two agents of one rank
    add(n=2, owners=[0, 0], nets=0, script='oos', opset=['del', 'sta', 'mov'], reqs=[[1, 0], [1, 1]], sync0=True)
    add(n=3, owners=[0, 0, 0], nets=0, script='ooos', opset=['del'], reqs=[[1, 0], [1, 1], [1, 2], [2, 1], [2, 2]], sync0=True)
    # requests and edges: a copy held for several reasons
    for d in (False, True):
        add(n=2, owners=[0, 1], directed=d, script='ososos', opset=['req', 'sta', 'add', 'rem', 'del'], reqs=[[0, 1]])
        add(n=2, owners=[0, 1, 1], directed=d, script='sos', opset=['rem', 'del', 'sta', 'mov'], reqs=[[0, 1], [0, 2], [1, 0]],
            pre=[['add', 0, 0, 0, 1], ['add', 0, 0, 0, 2]], tail=1)
        add(n=2, owners=[0, 1], nets=2, directed=d, script='sosos', opset=['rem', 'del', 'sta', 'mov'], reqs=[[0, 1]],
            pre=[['add', 0, 0, 0, 1], ['add', 0, 1, 0, 1]], tail=1)
        add(n=3, owners=[0, 1], directed=d, script='osos', opset=['mov', 'sta', 'del', 'rem'], reqs=[[0, 1], [2, 0], [2, 1]],
            pre=[['add', 0, 0, 0, 1]], sync0=True)
    # buffers of a space, requests and edges
    for cs in ('grid', 'cspace'):
        add(n=2, owners=[0], nets=0, spaces=[cs], bounds=[0, 6, 0, 0, 0, 0], script='ososos', opset=['wlk', 'del', 'req', 'mov'], reqs=[[1, 0]], sync0=True)
        add(n=2, owners=[0, 1], nets=0, spaces=[cs], bounds=[0, 6, 0, 0, 0, 0], script='osos', opset=['wlk', 'sta', 'del', 'req'])
        add(n=2, owners=[0, 1], nets=1, spaces=[cs], bounds=[0, 4, 0, 0, 0, 0], script='soos', opset=['wlk', 'sta', 'del', 'req', 'add', 'rem'], tail=1)
    if tier == 'thorough':
        add(n=2, owners=[0, 1], nets=1, spaces=['grid'], bounds=[0, 4, 0, 0, 0, 0], script='sosos', opset=['wlk', 'sta', 'del', 'req', 'add', 'rem'], tail=1)
        add(n=3, owners=[0, 1], nets=1, spaces=['grid'], bounds=[0, 6, 0, 0, 0, 0], script='sosos', opset=['wlk', 'del', 'req', 'add', 'rem'], tail=1)
        for d in (False, True):
            add(n=2, owners=[0, 1, 1], directed=d, script='osososs', opset=['req', 'sta', 'add', 'rem', 'del', 'mov'], reqs=[[0, 1], [1, 0]])
            add(n=3, owners=[0, 1], directed=d, script='ososos', opset=['req', 'mov', 'sta', 'add', 'rem', 'del'], reqs=[[0, 1], [2, 0]])
    return out


def prepare(tier):
    topo.prepare(cfgs_of([j for j in jobs(tier) if j.params.get('spaces')]))
