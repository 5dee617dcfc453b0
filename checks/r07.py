"""R07: migration conserves agents."""
from lib.runner import Job
from lib import topo
from checks.net_common import NetHarness
from checks.ctx_common import cfgs_of

FUNCTIONS = ['context.SharedContext: move_agents, synchronize, _gather_oob_data, _process_recv_oob_data, _agents_moved, add, request_agents', 'core.AgentManager.*',
             'network.SharedNetwork._agent_moving_rank/_agents_moved_rank/_post_agents_moved_rank', 'space.SharedGrid/SharedCSpace._agent_moving_rank']
BOUNDS = {'quick': ['2 - 4 ranks, 2 - 3 agents; no projection, a network, a grid, a continuous space, grid + continuous space, grid + network',
                    'all histories of 2 - 4 moves (explicit moves of one or two agents to any ranks; moves in the space to any location) with requests and state changes in between; all states and locations'],
          'thorough': ['longer histories, more agents']}
ASSUMPTIONS = ['mpi4py stub: N simulated ranks with blocking collectives; transmitted data is deep-copied',
               'the compiled _space module is replaced by its contract (decided by R11 - R17)',
               'an agent that is in several spaces has the same location in each of them']
OUTSIDE = ['more agents, ranks and moves than stated', 'the location of an explicitly moved agent in a space (it is expected to have none)']
LABELS = ['owner', 'state', 'ghost-rank', 'ghost-state', 'place', 'phantom', 'nodes', 'edges']


class Move(NetHarness):
    name = 'move'


def jobs(tier):
    out = []

    def add(**kw):
        out.append(Job(Move, kw))
    add(n=3, owners=[0, 1], nets=0, script='osos', opset=['mov', 'mv2'])
    add(n=2, owners=[0, 0], nets=0, script='ososos', opset=['mov', 'mv2', 'req'])
    add(n=4, owners=[0], nets=0, script='ososos', opset=['mov', 'req'])
    add(n=3, owners=[0, 1], nets=0, script='oosos', opset=['mov', 'sta'], reqs=[[1, 0], [2, 0], [0, 1]])
    for d in (False, True):
        add(n=3, owners=[0, 1], directed=d, script='osos', opset=['mov', 'mv2'], reqs=[[1, 0], [2, 0], [0, 1]])
        add(n=3, owners=[0, 0, 1], directed=d, script='osos', opset=['mov'], reqs=[[1, 0], [0, 2]], pre=[['add', 0, 0, 0, 1], ['add', 0, 0, 0, 2]], sync0=True)
    for n, b in ((3, [0, 6]), (4, [0, 4, 0, 4])):
        b = b + [0] * (6 - len(b))
        for per in (False, True):
            if n == 4 and not per:
                continue
            add(n=n, owners=[0], nets=0, spaces=['grid'], bounds=b, periodic=per, script='soso', opset=['wlk'], tail=1)
            add(n=n, owners=[n - 1], nets=0, spaces=['cspace'], bounds=b, periodic=per, script='oso', opset=['wlk'], tail=1)
    add(n=2, owners=[0, 1], nets=0, spaces=['grid'], bounds=[0, 6, 0, 0, 0, 0], script='oosos', opset=['wlk'])
    add(n=2, owners=[0, 1], nets=0, spaces=['grid', 'cspace'], bounds=[0, 4, 0, 0, 0, 0], script='oos', opset=['wlk'], reqs=[[1, 0]], tail=1)
    add(n=3, owners=[0, 1], nets=0, spaces=['cspace', 'grid'], bounds=[0, 6, 0, 0, 0, 0], script='oso', opset=['wlk'], tail=1)
    # arrivals from two ranks, where both agents were ghosts
    add(n=3, owners=[0, 2], nets=0, spaces=['grid'], bounds=[0, 3, 0, 0, 0, 0], script='oos', opset=['wlk'], reqs=[[1, 0], [1, 1]], tail=1)
    add(n=3, owners=[0, 2], nets=0, spaces=['cspace'], bounds=[0, 6, 0, 0, 0, 0], script='oos', opset=['wlk'], reqs=[[1, 0], [1, 1]])
    for d in (False, True):
        add(n=2, owners=[0, 1], directed=d, spaces=['grid'], bounds=[0, 4, 0, 0, 0, 0], script='oso', opset=['wlk'], reqs=[[0, 1]], pre=[['add', 0, 0, 0, 1]], sync0=True, tail=1)
        add(n=3, owners=[0, 0], directed=d, spaces=['cspace'], bounds=[0, 6, 0, 0, 0, 0], script='oso', opset=['wlk'], pre=[['add', 0, 0, 1, 0]], sync0=True, tail=1)
    # explicit moves while agents are out of bounds
    add(n=2, owners=[0, 0], nets=0, spaces=['grid'], bounds=[0, 6, 0, 0, 0, 0], script='soos', opset=['wlk', 'mov'], reqs=[[1, 0]])
    add(n=3, owners=[0, 0], nets=0, spaces=['cspace'], bounds=[0, 3, 0, 0, 0, 0], script='oos', opset=['wlk', 'mov'], reqs=[[2, 0], [1, 1]], sync0=True)
    for d in (False, True):
        add(n=2, owners=[0, 0, 0], nets=1, directed=d, spaces=['grid'], bounds=[0, 2, 0, 0, 0, 0], script='soo', opset=['wlk', 'mov'], pre=[['add', 0, 0, 0, 1]])
    if tier == 'thorough':
        add(n=3, owners=[0, 0], nets=0, spaces=['grid'], bounds=[0, 6, 0, 0, 0, 0], script='soosos', opset=['wlk', 'mov'], reqs=[[2, 0]])
        add(n=3, owners=[0, 1, 2], nets=0, script='ososos', opset=['mov', 'mv2'], reqs=[[0, 1], [1, 2]])
        add(n=3, owners=[0, 1, 2], nets=0, spaces=['grid', 'cspace'], bounds=[0, 6, 0, 0, 0, 0], script='ooosoos', opset=['wlk'])
        add(n=4, owners=[0, 3], nets=0, spaces=['cspace'], bounds=[0, 4, 0, 4, 0, 0], periodic=True, script='oosos', opset=['wlk'])
        for d in (False, True):
            add(n=3, owners=[0, 1, 2], directed=d, spaces=['grid'], bounds=[0, 6, 0, 0, 0, 0], script='ososos', opset=['wlk', 'add'], reqs=[[0, 1], [1, 2], [2, 0]])
            add(n=3, owners=[0, 0, 1], directed=d, script='ososos', opset=['mov', 'add'], reqs=[[1, 0], [0, 2]])
    return out


def prepare(tier):
    topo.prepare(cfgs_of([j for j in jobs(tier) if j.params.get('spaces')]))
