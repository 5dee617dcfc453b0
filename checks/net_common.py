"""Histories of a context with shared networks: requests, edges, removals, moves, synchronizations."""
from lib.pysym.ops import conj, disj, neg, eq
from checks.ctx_common import Batch, pick, make_agent_class, SpaceHarness

MODULES = ('core', 'random', 'geometry', 'space', 'context', 'network')


class NetHarness(SpaceHarness):
    """script: 'o' = any applicable operation (out of self.opset), 's' = synchronize + judge.

    Operations: req (request as ghost), add/upd/rem (edge), clr (clear_edges), del (remove agent),
    mov (move_agents), mv2 (move_agents with two agents), sta (change state), wlk (move in the space)."""
    modules = MODULES
    spaces = ()            # of 'grid', 'cspace': every agent is in each of them, at the same location
    n = 2
    owners = (0, 1)        # initial rank of each agent
    directed = False
    nets = 1
    script = 'osos'
    opset = ('req', 'add', 'upd', 'rem', 'del', 'mov', 'sta')
    sync0 = False          # synchronize after the fixed operations, without judging
    tail = 0               # change every state once more at the end, and synchronize
    pre = ()               # fixed operations before the script
    reqs = ()              # initial requests: (rank, agent)
    judge_props = ('R07', 'R08', 'R09')

    # ---- model: agents k -> dict(rank, s) ; edges (net, u, v) -> dict(w) -------------------
    def ekey(self, i, u, v):
        return (i, u, v) if self.directed else (i, min(u, v), max(u, v))

    def applicable(self, env, M, vis):
        ops = []
        alive = [k for k in range(len(M['ag'])) if M['ag'][k]['rank'] is not None]
        for o in self.opset:
            if o == 'req':
                ops += [('req', r, k) for k in alive for r in range(self.n) if M['ag'][k]['rank'] != r and (r, k) not in M['req']]
            elif o == 'add':
                for i in range(self.nets):
                    for r in range(self.n):
                        here = [k for k in alive if k in vis[r] and (self.dirty_moves or k not in M['walked'])]
                        for u in here:
                            for v in here:
                                e = self.ekey(i, u, v)
                                if u == v or e in M['edges'] or M['dirty'].get(e, r) != r or not (M['ag'][u]['rank'] == r or M['ag'][v]['rank'] == r):
                                    continue
                                if not self.directed and u > v and not self.both_orders:
                                    continue
                                ops.append(('add', r, i, u, v))
            elif o in ('upd', 'rem'):
                # on the rank of either end, but not on both between two synchronizations
                ops += [(o, r, *e) for e in sorted(M['edges']) for r in sorted({M['ag'][k]['rank'] for k in e[1:]})
                        if M['dirty'].get(e, r) == r and (self.dirty_moves or not M['walked'] & set(e[1:]))]
            elif o == 'clr':
                for i in range(self.nets):
                    for r in range(self.n):
                        es = self.edges_at(M, i, r)
                        if es and all(M['dirty'].get(e, r) == r for e in es) and not any(M['walked'] & set(e[1:]) for e in es):
                            ops.append(('clr', r, i))
            elif o == 'del':
                ops += [('del', k) for k in alive]
            elif o == 'mov':
                joined = {x for e in M['edges'] for x in (e[1:], e[:0:-1])}
                ops += [('mov', (k,), (d,)) for k in self.movable(M, alive) for d in range(self.n) if d != M['ag'][k]['rank']
                        if self.joint_moves or not any((k, l) in joined for l in M['walked'] if l != k)]
            elif o == 'mv2':
                mv = self.movable(M, alive)
                joined = {tuple(sorted(e[1:])) for e in M['edges']}
                ops += [('mov', (k, l), (d, e)) for k in mv for l in mv if k < l for d in range(self.n) for e in range(self.n)
                        if d != M['ag'][k]['rank'] and e != M['ag'][l]['rank'] and (self.joint_moves or (k, l) not in joined)]
            elif o == 'wlk':
                joined = {x for e in M['edges'] for x in (e[1:], e[:0:-1])}
                ops += [('wlk', k) for k in self.movable(M, alive)
                        if self.joint_moves or not any((k, l) in joined for l in M['walked'] if l != k)]
            elif o == 'sta':
                ops += [('sta', k) for k in alive]
        return ops

    @staticmethod
    def edges_at(M, i, r):
        return [e for e in sorted(M['edges']) if e[0] == i and r in [M['ag'][k]['rank'] for k in e[1:]]]

    both_orders = False
    joint_moves = False    # both ends of an edge may move together
    dirty_moves = False    # also move agents with edge changes that were not synchronized yet

    def movable(self, M, alive):
        return alive if self.dirty_moves else [k for k in alive if not any(k in e[1:] for e in M['dirty'])]

    def known(self, M):
        return {'unsynced-edge-move': M['k_dirty'], 'joint-move': M['k_joint']}

    def run(self, env):
        r4 = env.r4
        me = env.rank
        ctx = r4.context.SharedContext(env.comm)
        cls = r4.network.DirectedSharedNetwork if self.directed else r4.network.UndirectedSharedNetwork
        nets = [cls(f'net{i}', env.comm) for i in range(self.nets)]
        for nt in nets:
            ctx.add_projection(nt)
        sps = []
        for kind in self.spaces:
            sps.append(self.make_space(env, env.comm, kind, cspace=kind == 'cspace'))
            ctx.add_projection(sps[-1])
        A, restore = make_agent_class(r4)
        M = dict(ag=[], edges={}, req=set(), log=[], dirty={}, walked=set(), k_dirty=False, k_joint=False)
        env.M, env.restore, env.sps = M, restore, sps
        env.locs = self.locals_(env, sps[0]) if sps else None
        for k, o in enumerate(self.owners):
            s = env.int(f's{k}')
            m = dict(uid=(k, 0, o), rank=o, s=s, p=None)
            M['ag'].append(m)
            if sps:
                m['p'] = self.pos(env, f'p{k}', env.locs[o])
            if o == me:
                a = A(k, 0, o, s)
                ctx.add(a)
                self.place(env, a, m['p'])
        if self.reqs:
            for r, k in self.reqs:
                M['req'].add((r, k))
            M['log'].append(f'requests {list(self.reqs)}')
            ctx.request_agents([(M['ag'][k]['uid'], M['ag'][k]['rank']) for r, k in self.reqs if r == me], restore)
        out = []
        for i, op in enumerate(self.pre):
            self.apply(env, ctx, nets, M, tuple(op), f'_{i}')
        if self.sync0:
            ctx.synchronize(restore)
            M['dirty'] = {}
        j = 0
        for c in self.script + 'x' * self.tail:
            if c == 'x':
                # every state changes once more: copies that are no longer refreshed show up
                for k, a in enumerate(M['ag']):
                    if a['rank'] is not None:
                        self.apply(env, ctx, nets, M, ('sta', k), f'x{k}')
            if c in 'sx':
                M['log'].append('sync')
                ctx.synchronize(restore)
                M['dirty'] = {}
                self.arrive(env, M)
                out.append(self.judge(env, ctx, nets, M))
            else:
                vis = [set(x) for x in env.comm.allgather([k for k, a in enumerate(M['ag']) if self.get(ctx, a['uid']) is not None])]
                ops = self.applicable(env, M, vis)
                if not ops:
                    env.assume(False)
                op = ops[env.choice(f'op{j}', len(ops))]
                self.apply(env, ctx, nets, M, op, j)
                if op[0] == 'mov':
                    out.append(self.judge(env, ctx, nets, M))
                j += 1
        return [M['log'], out]

    def place(self, env, a, p):
        for kind, sp in zip(self.spaces, env.sps):
            sp.move(a, self.point(env, p, kind == 'cspace'))

    def arrive(self, env, M):
        w = sorted(M['walked'])
        M['walked'] = set()
        if w:
            self.moved(M, w, [self.owner(M['ag'][k]['p'], env.locs) for k in w])

    def moved(self, M, ks, ds):
        """The model's effect of agents ks moving to the ranks ds."""
        ag = M['ag']
        off = {k for k, d in zip(ks, ds) if d != ag[k]['rank']}
        for k, d in zip(ks, ds):
            ag[k]['rank'] = d
            M['req'].discard((d, k))
        for (i, u, v), e in M['edges'].items():
            if u in off and v in off:
                M['k_joint'] = True
        for k in off:
            M['log'].append(f'{k}->{ag[k]["rank"]}')

    @staticmethod
    def get(ctx, uid):
        a = ctx.agent(uid)
        return a if a is not None else ctx.ghost_agent(uid)

    def apply(self, env, ctx, nets, M, op, j):
        me = env.rank
        M['log'].append(str(op))
        ag = M['ag']
        o = op[0]
        if o == 'req':
            _, r, k = op
            M['req'].add((r, k))
            got = ctx.request_agents([(ag[k]['uid'], ag[k]['rank'])] if r == me else [], env.restore)
            if r == me:
                env.check(len(got) == 1 and got[0].uid == ag[k]['uid'], 'request', lambda: f'{M["log"]}: returned {got}')
        elif o == 'add':
            _, r, i, u, v = op
            w = env.int(f'w{j}')
            M['edges'][self.ekey(i, u, v)] = dict(w=w)
            M['dirty'][self.ekey(i, u, v)] = r
            if r == me:
                nets[i].add_edge(self.get(ctx, ag[u]['uid']), self.get(ctx, ag[v]['uid']), weight=w)
        elif o == 'upd':
            _, r, i, u, v = op
            w = env.int(f'w{j}')
            M['edges'][(i, u, v)]['w'] = w
            M['dirty'][(i, u, v)] = r
            if r == me:
                nets[i].update_edge(self.get(ctx, ag[u]['uid']), self.get(ctx, ag[v]['uid']), weight=w)
        elif o == 'rem':
            _, r, i, u, v = op
            del M['edges'][(i, u, v)]
            M['dirty'][(i, u, v)] = r
            if r == me:
                nets[i].remove_edge(self.get(ctx, ag[u]['uid']), self.get(ctx, ag[v]['uid']))
        elif o == 'del':
            k = op[1]
            if ag[k]['rank'] == me:
                ctx.remove(ctx.agent(ag[k]['uid']))
            ag[k]['rank'] = None
            M['walked'].discard(k)
            M['req'] = {(r, x) for r, x in M['req'] if x != k}
            M['edges'] = {e: d for e, d in M['edges'].items() if k not in e[1:]}
        elif o == 'sta':
            k = op[1]
            s = env.int(f't{j}')
            if ag[k]['rank'] == me:
                ctx.agent(ag[k]['uid']).state = s
            ag[k]['s'] = s
        elif o == 'mov':
            _, ks, ds = op
            src = [ag[k]['rank'] for k in ks]
            M['k_dirty'] = M['k_dirty'] or any(k in e[1:] for e in M['dirty'] for k in ks)
            w = sorted(M['walked'] - set(ks))       # move_agents also synchronizes
            M['walked'] = set()
            self.moved(M, [*ks, *w], [*ds, *[self.owner(ag[k]['p'], env.locs) for k in w]])
            for k in ks:
                ag[k]['p'] = None       # an explicitly moved agent arrives without a location
            ctx.move_agents([(ag[k]['uid'], d) for k, s, d in zip(ks, src, ds) if s == me], env.restore)
            M['dirty'] = {}
        elif o == 'wlk':
            k = op[1]
            M['k_dirty'] = M['k_dirty'] or any(k in e[1:] for e in M['dirty'])
            p = self.pos(env, f'p{k}_{j}', self.bounds)
            M['walked'].add(k)
            ag[k]['p'] = p
            if ag[k]['rank'] == me:
                self.place(env, ctx.agent(ag[k]['uid']), p)
        elif o == 'clr':
            _, r, i = op
            if r == me:
                nets[i].clear_edges()
            for e in self.edges_at(M, i, r):
                del M['edges'][e]
                M['dirty'][e] = r

    # ---- judging -------------------------------------------------------------------------------
    def judge(self, env, ctx, nets, M):
        me = env.rank
        B = Batch(env, self.known(M))
        ag = M['ag']
        det = lambda: f'{M["log"]} rank {me}'
        idx = {a['uid']: k for k, a in enumerate(ag)}
        obs = []
        def agent(k, a):
            loc, gh = ctx.agent(a['uid']), ctx.ghost_agent(a['uid'])
            B.check((loc is not None) == (a['rank'] == me), 'owner', lambda: f'{det()}: agent {k} local here: {loc is not None}, should be on {a["rank"]}')
            B.check(loc is None or gh is None, 'owner', lambda: f'{det()}: agent {k} is local and a ghost')
            if loc is not None:
                B.check(lambda: eq(loc.state, a['s']), 'state', lambda: f'{det()}: agent {k} local state {loc.state} expected {a["s"]}')
                B.check(loc.local_rank == me, 'owner', lambda: f'{det()}: agent {k} local_rank {loc.local_rank}')
                for kind, sp in zip(self.spaces, env.sps):
                    pl = self.loc(sp, loc)
                    B.check(lambda pl=pl: pl is None if a['p'] is None else pl is not None and eq(pl, a['p']), 'place', lambda pl=pl, kind=kind: f'{det()}: agent {k} is at {pl} in the {kind}, expected {a["p"]}')
                    obs.append([kind, k, pl])
            elif gh is None and a['rank'] is not None:
                probe = env.restore((a['uid'], 0))
                for sp in env.sps:
                    B.check(probe not in sp, 'phantom', lambda sp=sp: f'{det()}: agent {k} is neither local nor a ghost but in {sp.name}')
                for nt in nets:
                    B.check(all(x.uid != a['uid'] for x in nt.graph.nodes), 'phantom', lambda nt=nt: f'{det()}: agent {k} is neither local nor a ghost but in {nt.name}')
            if a['rank'] is None:
                B.check(gh is None, 'removed', lambda: f'{det()}: removed agent {k} is still a ghost')
                for nt in nets:
                    B.check(all(x.uid != a['uid'] for x in nt.graph.nodes), 'removed', lambda nt=nt: f'{det()}: removed agent {k} is still a node of {nt.name}')
            elif gh is not None:
                B.check(lambda: eq(gh.state, a['s']), 'ghost-state', lambda: f'{det()}: ghost {k} state {gh.state} expected {a["s"]}')
                B.check(gh.local_rank == a['rank'], 'ghost-rank', lambda: f'{det()}: ghost {k} local_rank {gh.local_rank}, lives on {a["rank"]}')
            if (me, k) in M['req']:
                B.check(gh is not None, 'ghost-kept', lambda: f'{det()}: requested agent {k} is no ghost here')
            obs.append([loc is not None, gh is not None])

        for k, a in enumerate(ag):
            agent(k, a)
        def network(i, nt):
            nodes = [x.uid for x in nt.graph.nodes]
            B.check(len(set(nodes)) == len(nodes), 'nodes', lambda: f'{det()}: duplicate nodes {nodes}')
            for k, a in enumerate(ag):
                if a['rank'] == me:
                    B.check(nodes.count(a['uid']) == 1 and ctx.agent(a['uid']) in nt.graph, 'nodes', lambda k=k: f'{det()}: local agent {k} is not a node: {nodes}')
            got = {}
            dup = False
            for u, v, d in nt.graph.edges(data=True):
                ku, kv = idx[u.uid], idx[v.uid]
                e = self.ekey(i, ku, kv)
                dup = dup or e in got
                got[e] = d
                for x, kx in ((u, ku), (v, kv)):
                    B.check(x is self.get(ctx, ag[kx]['uid']), 'edge-ends', lambda e=e, kx=kx: f'{det()}: edge {e} refers to an object of agent {kx} that is not the context\'s')
            exp = {e: d for e, d in M['edges'].items() if e[0] == i and me in (ag[e[1]]['rank'], ag[e[2]]['rank'])}
            B.check(not dup and set(got) == set(exp), 'edges', lambda: f'{det()}: edges {sorted(got)} expected {sorted(exp)}')
            for e in set(got) & set(exp):
                B.check(lambda e=e: set(got[e]) == {'weight'} and eq(got[e]['weight'], exp[e]['w']), 'edge-attrs', lambda e=e: f'{det()}: edge {e} {got[e]} expected weight {exp[e]["w"]}')
            obs.append([sorted([list(e), got[e].get('weight')] for e in got)])

        for i, nt in enumerate(nets):
            network(i, nt)
        B.done()
        return obs

    def on_exception(self, env, exc, tb):
        M = getattr(env, 'M', None)
        env.check(False, 'no-exception', f'{M and M["log"]}: {type(exc).__name__}: {exc}\n{tb[-900:]}', known=self.known(M) if M else None)
