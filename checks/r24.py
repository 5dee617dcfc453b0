"""R24: checkpointed agents, spaces and networks are restored identically."""
import copy
from lib.runner import Job
from lib import topo
from lib.pysym.ops import conj, eq
from checks.ctx_common import make_agent_class, cfgs_of, Batch
from checks.net_common import NetHarness

FUNCTIONS = ['checkpoint.Checkpoint.save_agents/restore_agents/save_space/restore_space/save_network/restore_network/save/restore', 'checkpoint.NetworkRestorer.*',
             'context.SharedContext: add, request_agents, synchronize, move_agents', 'network.*: add_edge, update_edge, remove_edge, _sync_*, _agent_moving_rank', 'space.SharedGrid/SharedCSpace: move, get_location']
BOUNDS = {'quick': ['1 - 3 ranks, 1 - 3 agents, 1 - 2 networks (directed and undirected), a grid and a continuous space',
                    'all histories of 1 - 2 operations (edges, moves, requests, locations, states) and synchronizations before the checkpoint, 1 operation between checkpoint and restore, 1 after the restore; all states, weights and locations; '
                    'serialized checkpoints and ones used as they are; projections added before and after the agents'],
          'thorough': ['longer histories, 3 agents on 3 ranks']}
ASSUMPTIONS = ['mpi4py stub: N simulated ranks with blocking collectives; transmitted data is deep-copied',
               'a serialized checkpoint is a deep copy in the symbolic run, and made by dill in the replay on the real code',
               'the compiled _space module is replaced by its contract (decided by R11 - R17)',
               'networks are saved when no edge changes wait for synchronization; the restored model has as many ranks as the saved one']
OUTSIDE = ['agents restored on other ranks than those on which they were saved', 'ghosts that are not needed by an edge (they are requested anew)', 'networks with edges whose removal was not synchronized']
LABELS = ['owner', 'agents', 'state', 'place', 'nodes', 'edges', 'edge-attrs', 'ghost-rank', 'ghost-state', 'missing-agent', 'other-state']


def dump(env, x):
    if env.symbolic:
        return copy.deepcopy(x)
    import dill
    return dill.dumps(x)


def load(env, x):
    if env.symbolic:
        return x
    import dill
    return dill.loads(x)


class Ckp(NetHarness):
    """script: o, s as in NetHarness; c checkpoint, r restore into a new context, m restore without one agent."""
    name = 'checkpoint'
    modules = NetHarness.modules + ('checkpoint',)
    script = 'osr'
    serialized = True
    unplaced = False       # the last agent has no location

    def build(self, env, name=''):
        r4 = env.r4
        ctx = r4.context.SharedContext(env.comm)
        cls = r4.network.DirectedSharedNetwork if self.directed else r4.network.UndirectedSharedNetwork
        nets = [cls(f'net{i}', env.comm) for i in range(self.nets)]
        sps = [self.make_space(env, env.comm, kind, cspace=kind == 'cspace') for kind in self.spaces]
        return ctx, nets, sps

    def run(self, env):
        r4 = env.r4
        me = env.rank
        ctx, nets, sps = self.build(env)
        for p in nets + sps:
            ctx.add_projection(p)
        A, restore = make_agent_class(r4)
        M = dict(ag=[], edges={}, req=set(), log=[], dirty={}, walked=set(), k_dirty=False, k_joint=False)
        env.M, env.restore, env.sps = M, restore, sps
        env.locs = self.locals_(env, sps[0]) if sps else None
        for k, o in enumerate(self.owners):
            s = env.int(f's{k}')
            m = dict(uid=(k, k % 2, o), rank=o, s=s, p=None)
            M['ag'].append(m)
            placed = sps and not (self.unplaced and k == len(self.owners) - 1)
            if placed:
                m['p'] = self.pos(env, f'p{k}', env.locs[o])
            if o == me:
                a = A(k, k % 2, o, s)
                ctx.add(a)
                if placed:
                    self.place(env, a, m['p'])
        if self.reqs:
            for r, k in self.reqs:
                M['req'].add((r, k))
            M['log'].append(f'requests {list(self.reqs)}')
            ctx.request_agents([(M['ag'][k]['uid'], M['ag'][k]['rank']) for r, k in self.reqs if r == me], restore)
        for i, op in enumerate(self.pre):
            self.apply(env, ctx, nets, M, tuple(op), f'_{i}')
        out = []
        saved = None
        j = 0
        for c in self.script:
            if c == 's':
                M['log'].append('sync')
                ctx.synchronize(restore)
                M['dirty'] = {}
                if M['walked']:
                    w = sorted(M['walked'])
                    M['walked'] = set()
                    self.moved(M, w, [self.owner(M['ag'][k]['p'], env.locs) for k in w])
                out.append(self.judge(env, ctx, nets, M))
            elif c == 'c':
                M['log'].append('checkpoint')
                ck = r4.checkpoint.Checkpoint()
                ck.save_agents(ctx.agents(shuffle=False))
                for nt in nets:
                    ck.save_network(nt, me)
                for sp in sps:
                    ck.save_space(ctx, sp)
                value = [M['ag'][0]['s'], {'n': me}]
                ck.save('k', value)
                ck.save('l', 7)
                saved = dump(env, ck) if self.serialized else ck
                snap = copy.deepcopy({x: M[x] for x in ('ag', 'edges')})
            elif c in 'rm':
                M = dict(ag=copy.deepcopy(snap['ag']), edges=copy.deepcopy(snap['edges']), req=set(), log=M['log'] + ['restore'], dirty={}, walked=set(), k_dirty=False, k_joint=False)
                env.M = M
                ck = load(env, saved) if self.serialized else saved
                ctx, nets, sps = self.build(env)
                env.sps = sps
                if c == 'm':
                    out.append(self.missing(env, ck, ctx, nets, M))
                    continue
                late = bool(env.choice('late', 2)) if self.orders else False
                if not late:
                    for p in nets + sps:
                        ctx.add_projection(p)
                uids = []
                for a in ck.restore_agents(restore):
                    uids.append(a.uid)
                    ctx.add(a)
                if late:
                    for p in nets + sps:
                        ctx.add_projection(p)
                exp = sorted(a['uid'] for a in M['ag'] if a['rank'] == me)
                env.check(sorted(uids) == exp, 'agents', lambda: f'{M["log"]} rank {me}: restored {sorted(uids)} expected {exp}')
                first = bool(env.choice('netfirst', 2)) if self.orders and nets and sps else False
                if not first:
                    for sp in sps:
                        ck.restore_space(ctx, sp)
                for nt in nets:
                    ck.restore_network(ctx, nt, restore)
                if first:
                    for sp in sps:
                        ck.restore_space(ctx, sp)
                got = ck.restore('k', lambda x, y: [x, y], 3)
                env.check(conj([eq(got[0][0], snap['ag'][0]['s']), got[0][1] == {'n': me}, got[1] == 3, ck.restore('l', lambda x: x) == 7]), 'other-state', lambda: f'{M["log"]}: {got}')
                M['dirty'] = {e: ('restored',) for e in ()}
                out.append(self.judge(env, ctx, nets, M))
            else:
                vis = [set(x) for x in env.comm.allgather([k for k, a in enumerate(M['ag']) if self.get(ctx, a['uid']) is not None])]
                ops = self.applicable(env, M, vis)
                if not ops:
                    env.assume(False)
                op = ops[env.choice(f'op{j}', len(ops))]
                self.apply(env, ctx, nets, M, op, j)
                if op[0] == 'mov':
                    out.append(self.judge(env, ctx, nets, M))
                j += 1
        return [M['log'], out]

    orders = True

    def missing(self, env, ck, ctx, nets, M):
        """An agent that has an edge was not restored: an error."""
        me = env.rank
        ends = sorted({k for e in M['edges'] for k in e[1:] if M['ag'][k]['rank'] == me})
        k = ends[env.choice('lost', len(ends))] if ends else None
        ctx.add_projection(nets[0])
        for a in ck.restore_agents(env.restore):
            if k is None or a.uid != M['ag'][k]['uid']:
                ctx.add(a)
        try:
            r4net = env.r4.checkpoint.NetworkRestorer(ctx, nets[0], ck.networks[nets[0].name])
            r4net.restore({})
            err = False
        except ValueError:
            err = True
        env.check(err == (k is not None), 'missing-agent', lambda: f'{M["log"]} rank {me}: agent {k} was not restored, error: {err}')
        return [k, err]

    def place(self, env, a, p):
        if p is not None:
            super().place(env, a, p)


def jobs(tier):
    out = []

    def add(**kw):
        out.append(Job(Ckp, kw))
    R2 = [[0, 1], [1, 0]]
    for d in (False, True):
        for ser in (True, False):
            add(n=1, owners=[0, 0], directed=d, script='ooscor', opset=['add', 'upd', 'rem'], serialized=ser, both_orders=True)
            add(n=2, owners=[0, 1], directed=d, script='oscors', opset=['add', 'upd', 'mov', 'sta', 'rem'], reqs=R2, serialized=ser, pre=[['add', 0, 0, 1, 0]], both_orders=True)
        add(n=2, owners=[0, 1], directed=d, script='soscrsos', opset=['add', 'mov', 'upd', 'rem'], reqs=R2, pre=[['add', 0, 0, 0, 1]])
        add(n=2, owners=[0, 1, 1], directed=d, script='soscrs', opset=['add', 'mov', 'del'], reqs=[[0, 1], [0, 2]], pre=[['add', 0, 0, 1, 0], ['add', 0, 0, 0, 2]])
        add(n=2, owners=[0, 1, 0], nets=2, directed=d, script='soscrs', opset=['add', 'rem'], reqs=R2, pre=[['add', 0, 0, 0, 1], ['add', 1, 1, 0, 1]])
        add(n=3, owners=[0, 1, 2], directed=d, script='soscrs', opset=['add', 'mov'], reqs=[[0, 1], [1, 2], [2, 0]], pre=[['add', 0, 0, 0, 1], ['add', 1, 0, 1, 2]])
        add(n=2, owners=[0, 1, 0], directed=d, script='scm', opset=[], reqs=R2, pre=[['add', 0, 0, 0, 1], ['add', 0, 0, 0, 2]])
        add(n=2, owners=[0, 1], directed=d, spaces=['grid'], bounds=[0, 4, 0, 0, 0, 0], script='soscors', opset=['wlk'], reqs=R2, pre=[['add', 0, 0, 0, 1]])
    for ser in (True, False):
        add(n=2, owners=[0, 1], nets=0, spaces=['grid'], bounds=[-2, 6, 0, 0, 0, 0], script='oscors', opset=['wlk', 'sta'], serialized=ser)
        add(n=2, owners=[0, 1], nets=0, spaces=['cspace'], bounds=[-2, 6, 0, 0, 0, 0], script='oscor', opset=['wlk'], serialized=ser)
        add(n=1, owners=[0, 0], nets=0, spaces=['grid', 'cspace'], bounds=[0, 4, -1, 4, 0, 0], script='ocor', opset=['wlk', 'sta', 'del'], serialized=ser)
        add(n=1, owners=[0], nets=0, spaces=['cspace', 'grid'], bounds=[0, 4, -1, 4, 2, 2], script='ocor', opset=['wlk'], serialized=ser)
    add(n=1, owners=[0, 0], nets=0, spaces=['grid', 'cspace'], bounds=[0, 4, 0, 0, 0, 0], script='cr', opset=[], unplaced=True)
    if tier == 'thorough':
        for d in (False, True):
            add(n=2, owners=[0, 1, 1], directed=d, script='soosocrsos', opset=['add', 'mov', 'upd', 'rem', 'del'], reqs=[[0, 1], [0, 2]], pre=[['add', 0, 0, 0, 1]])
            add(n=3, owners=[0, 1, 2], directed=d, script='soscrsos', opset=['add', 'mov', 'upd', 'rem'], reqs=[[0, 1], [1, 2], [2, 0]], pre=[['add', 0, 0, 0, 1], ['add', 1, 0, 1, 2]])
        add(n=3, owners=[0, 1, 2], nets=0, spaces=['grid', 'cspace'], bounds=[0, 6, 0, 0, 0, 0], script='oosocors', opset=['wlk', 'sta'])
    return out


def prepare(tier):
    topo.prepare(cfgs_of([j for j in jobs(tier) if j.params.get('spaces')]))
