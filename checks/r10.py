"""R10: a network written to a file reads back as the same network."""
import json as _json
import os
import re
import sys
import types
from lib.harness import Harness
from lib.runner import Job
from lib.pysym.ops import conj, eq
from checks.ctx_common import Batch

FUNCTIONS = ['network.write_network, _random_partition, _metis_partition, _write_node, _write_edges', 'network.read_network, _parse_graph_desc, _parse_node, _parse_edge, _request_remote_agents, _create_edges',
             'context.SharedContext: add, request_agents, synchronize', 'network.*SharedNetwork.add_edge, _sync_*']
BOUNDS = {'quick': ['graphs of 1 - 4 nodes with any subset of up to 4 candidate edges (self loops included), directed and undirected, several node ids and orders',
                    'every assignment to 1 - 3 ranks that the random partition can produce, and every assignment of a metis partition; 1 - 3 reading ranks',
                    'any attribute values (integers); attribute dictionaries that are empty, nested, hold lists or strings with braces, quotes, spaces, tabs and line breaks; all agent types -1 to 2, and (one node) 8, 255, 256, 65536 and 2147483647'],
          'thorough': ['as quick with up to 5 candidate edges and 4 ranks']}
ASSUMPTIONS = ['mpi4py stub: N simulated ranks with blocking collectives; transmitted data is deep-copied',
               'json: the real library, symbolic numbers are carried through it as opaque numbers', 'numpy.random.Generator.shuffle yields any permutation', 'nxmetis (not installed) returns any partition; networkx runs as it is']
OUTSIDE = ['names and ids that contain white space, ids that are no integers', 'attributes that JSON does not represent', 'attributes named like parameters of the callables', 'files that do not follow the format']
LABELS = ['local', 'attributes', 'edges', 'edge-attrs', 'ghosts', 'nodes', 'network', 'type-error']

SHAPES = [
    lambda v: {},
    lambda v: {'w': v},
    lambda v: {'a': {'b': v, 'c': {}}, 'l': [v, {'x': 1}]},
    lambda v: {'s': 'a} {b" EDGES', 't': 'x\n y\t', 'w': v, 'n': None},
    lambda v: {'a b': v, 'e': {}, 'f': 0.5},
]
TOK = re.compile('\u27e6\\d+\u27e7')


def json_stub():
    from lib.pysym.proxies import SymNum, untext
    j = types.ModuleType('json')
    for k in dir(_json):
        setattr(j, k, getattr(_json, k))

    def enc(x):
        if isinstance(x, SymNum):
            return str(x)
        if isinstance(x, dict):
            return {k: enc(v) for k, v in x.items()}
        return [enc(v) for v in x] if isinstance(x, (list, tuple)) else x

    def dec(x):
        if isinstance(x, str) and TOK.fullmatch(x):
            return untext(x)
        if isinstance(x, dict):
            return {k: dec(v) for k, v in x.items()}
        return [dec(v) for v in x] if isinstance(x, list) else x

    def dumps(x, **kw):
        # numbers are printed without quotes
        return re.sub('"(\\\\u27e6\\d+\\\\u27e7|\u27e6\\d+\u27e7)"', lambda m: m[1].replace('\\u27e6', '\u27e6').replace('\\u27e7', '\u27e7'), _json.dumps(enc(x), **kw))

    def loads(s, **kw):
        return dec(_json.loads(TOK.sub(lambda m: f'"{m[0]}"', s), **kw))
    j.dumps, j.loads = dumps, loads
    j.dump = lambda x, f, **kw: f.write(dumps(x, **kw))
    j.load = lambda f, **kw: loads(f.read(), **kw)
    return j


def same(a, b):
    """Condition: equal nested values."""
    if isinstance(a, dict) or isinstance(b, dict):
        return type(a) is type(b) and list(a) == list(b) and conj([same(a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and conj([same(x, y) for x, y in zip(a, b)])
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        return type(a) is type(b) and a == b
    return eq(a, b)


class Gen:
    """A random generator that yields any permutation."""

    def __init__(self, env):
        self.env = env

    def shuffle(self, x, axis=0):
        for i in range(len(x) - 1, 0, -1):
            j = self.env.choice(f's{i}', i + 1)
            t = x[i]
            x[i] = x[j]
            x[j] = t

    def permutation(self, x, axis=0):
        x = list(range(x)) if isinstance(x, int) else x.copy()
        self.shuffle(x)
        return x


class Files(Harness):
    """Written by rank 0 for `parts` ranks, read by n ranks (n == parts or 1)."""
    name = 'network-file'
    modules = ('core', 'random', 'geometry', 'space', 'context', 'network')
    n = 2
    parts = None
    ids = (0, 1, 2)
    cand = ((0, 1), (1, 2))      # candidate edges (positions in ids)
    directed = False
    shapes = (1, 1)              # of node and edge attributes
    method = 'random'
    typed = ()                   # nodes with an agent_type
    types = None                 # the types to choose from (any in [-1, 2] by default)
    used = ()                    # edges that are always there

    @property
    def ranks(self):
        return self.n

    def stubs(self, env):
        from lib import spacestub
        return {'repast4py._space': spacestub.make(), 'json': json_stub()}

    def run(self, env):
        import networkx as nx
        r4, me = env.r4, env.rank
        net = r4.network
        parts = self.parts or self.n
        g = nx.DiGraph() if self.directed else nx.Graph()
        attrs, etypes = {}, {}
        for i, x in enumerate(self.ids):
            d = SHAPES[self.shapes[0]](env.int(f'a{i}'))
            attrs[x] = dict(d)
            etypes[x] = 0
            if i in self.typed:
                etypes[x] = t = env.int(f'type{i}', -1, 2) if self.types is None else self.types[env.choice(f'type{i}', len(self.types))]
                d = dict(d, agent_type=t) if i % 2 else dict({'agent_type': t}, **d)
            g.add_node(x, **d)
        edges = {}
        for i, (u, v) in enumerate(self.cand):
            u, v = self.ids[u], self.ids[v]
            if (i in self.used) or env.choice(f'edge{i}', 2):
                d = SHAPES[self.shapes[1]](env.int(f'w{i}'))
                edges[(u, v)] = d
                g.add_edge(u, v, **d)
        p = os.path.join(env.scratch, 'net.txt')
        given, bad = None, None
        part = {}
        if self.method == 'metis':
            m = types.ModuleType('nxmetis')
            for i, x in enumerate(self.ids):
                part[x] = env.choice(f'part{i}', parts)
            m.partition = lambda gr, k, **kw: (0, [[x for x in reversed(self.ids) if part[x] == r] for r in range(k)])
            sys.modules['nxmetis'] = m
        if me == 0:
            before = {x: dict(d) for x, d in g.nodes(data=True)}
            try:
                kw = {} if self.method == 'default' else {'partition_method': self.method}
                gen = Gen(env)
                if self.method == 'random':
                    kw['rng'] = 'default'
                if self.method in ('random', 'default'):
                    r4.random.default_rng = gen
                if self.method == 'rng':
                    kw = {'rng': gen}
                net.write_network(g, 'some_net', p, parts, **kw)
                bad = False
            except ValueError:
                bad = True
            neg = any(bool(etypes[self.ids[i]] < 0) for i in self.typed)
            env.check(bad == neg, 'type-error', lambda: f'types {[etypes[self.ids[i]] for i in self.typed]}: error {bad}')
            env.check(conj([same(dict(d), before[x]) for x, d in g.nodes(data=True)]), 'attributes', lambda: f'writing changed the graph: {list(g.nodes(data=True))}')
            if not bad:
                # the assignment of nodes to ranks
                with open(p) as f:
                    lines = [ln.split(' ', 3) for ln in f.read().split('\n')[1:len(self.ids) + 1]]
                given = {int(x[0]): int(x[2]) for x in lines}
        bad, given = env.comm.bcast((bad, given), root=0)
        if bad:
            return ['error']
        if self.method == 'metis':
            env.check(given == part, 'local', lambda: f'written {given}, partition {part}')
        else:
            env.check(sorted(given) == sorted(self.ids) and all(0 <= r < parts for r in given.values()), 'nodes', lambda: f'written nodes {given}')
        where = {x: (given[x] if self.n > 1 else 0) for x in self.ids}

        class A(r4.core.Agent):
            def __init__(s, id, type, rank, attribs):
                super().__init__(id, type, rank)
                s.attribs = attribs

            def save(s):
                return (s.uid, s.attribs)

            def update(s, attribs):
                s.attribs = attribs
        made = []

        def create(node_id, agent_type, rank, **kw):
            a = A(node_id, agent_type, rank, kw)
            made.append(a.uid)
            return a

        def restore(d):
            return A(d[0][0], d[0][1], d[0][2], d[1])
        ctx = r4.context.SharedContext(env.comm)
        net.read_network(p, ctx, create, restore)
        out = self.judge(env, ctx, g, attrs, etypes, edges, given, where, made, 'read')
        ctx.synchronize(restore)
        self.judge(env, ctx, g, attrs, etypes, edges, given, where, made, 'synchronized')
        return out

    def judge(self, env, ctx, g, attrs, etypes, edges, given, where, made, when):
        me = env.rank
        B = Batch(env)
        det = lambda: f'{when} rank {me}/{self.n}: nodes {given} edges {list(edges)}'
        nt = ctx.get_projection('some_net')
        B.check(nt.name == 'some_net' and nt.is_directed == self.directed, 'network', lambda: f'{det()}: {nt.name} directed {nt.is_directed}')
        agents = list(ctx.agents(shuffle=False))
        mine = [x for x in self.ids if where[x] == me]
        B.check(sorted(a.uid[0] for a in agents) == sorted(mine) and sorted(u[0] for u in made) == sorted(mine), 'local', lambda: f'{det()}: local {[a.uid for a in agents]}, created {made}')
        need = sorted({y for e in edges for x, y in (e, e[::-1]) if where[x] == me and where[y] != me})
        nodes = list(nt.graph.nodes)
        B.check(sorted(a.uid[0] for a in nodes) == sorted(mine + need), 'nodes', lambda: f'{det()}: nodes {[a.uid for a in nodes]}')
        obs = []
        for x in sorted(mine + need):
            a = [a for a in nodes if a.uid[0] == x]
            if len(a) != 1:
                continue
            a = a[0]
            loc = where[x] == me
            uid = (x, a.uid[1], given[x])
            B.check(lambda: conj([eq(a.uid[1], etypes[x]), a.uid == uid]), 'local', lambda: f'{det()}: agent {a.uid}, expected type {etypes[x]}')
            B.check(a is (ctx.agent(a.uid) if loc else ctx.ghost_agent(a.uid)) and (ctx.ghost_agent(a.uid) is None or not loc), 'local' if loc else 'ghosts', lambda: f'{det()}: {a.uid} is not the agent of the context')
            B.check(a.local_rank == where[x], 'ghosts', lambda: f'{det()}: {a.uid} local rank {a.local_rank}')
            B.check(lambda: same(a.attribs, attrs[x]), 'attributes', lambda: f'{det()}: {a.uid} has {a.attribs}, written {attrs[x]}')
            obs.append([x, a.uid[1], a.attribs])
        got = {}
        for u, v, d in nt.graph.edges(data=True):
            e = (u.uid[0], v.uid[0])
            if not self.directed and e not in edges:
                e = e[::-1]
            B.check(e not in got, 'edges', lambda: f'{det()}: {e} twice')
            got[e] = d
        exp = {e for e in edges if me in (where[e[0]], where[e[1]])}
        B.check(set(got) == exp, 'edges', lambda: f'{det()}: edges {sorted(got)} expected {sorted(exp)}')
        for e in sorted(exp & set(got)):
            B.check(lambda: same(dict(got[e]), edges[e]), 'edge-attrs', lambda: f'{det()}: edge {e} {got[e]} written {edges[e]}')
            obs.append([list(e), dict(got[e])])
        B.done()
        return obs


def jobs(tier):
    out = []

    def add(**kw):
        for d in (False, True):
            out.append(Job(Files, dict(directed=d, **kw)))
    T3 = [[0, 1], [1, 2], [2, 0]]
    for sh in range(len(SHAPES)):
        add(n=2, ids=[0, 1, 2], cand=[[0, 1], [1, 2]], shapes=[sh, (sh + 1) % len(SHAPES)], used=[0], method='default')
    add(n=1, ids=[3, 0, 12], cand=T3, shapes=[1, 2], typed=[0, 1])
    add(n=1, parts=3, ids=[3, 0, 12], cand=[[0, 1], [1, 2], [0, 0]], shapes=[2, 1], typed=[0])
    add(n=2, ids=[3, -1, 12], cand=[[0, 1], [2, 2]], shapes=[1, 1], typed=[1])
    add(n=2, ids=[10, 2, 7, 1], cand=[[0, 1], [1, 2], [2, 3], [0, 3]], shapes=[1, 1], method='metis')
    add(n=3, ids=[0, 1, 2], cand=T3, shapes=[1, 1])
    add(n=3, ids=[0, 1, 2], cand=T3, shapes=[0, 1], method='metis')
    add(n=3, ids=[0, 1, 2, 3], cand=[[0, 1], [0, 2], [0, 3]], shapes=[1, 0], method='metis', used=[0, 1])
    add(n=2, ids=[0, 1, 2, 3], cand=[[0, 1], [1, 2]], shapes=[1, 1], method='rng', used=[0])
    add(n=1, ids=[5, 0], cand=[[0, 1]], shapes=[1, 1], typed=[1], types=[8, 255, 256, 65536, 2 ** 31 - 1])
    add(n=2, ids=[4], cand=[[0, 0]], shapes=[1, 1], typed=[0])
    out.append(Job(Files, dict(directed=True, n=2, ids=[0, 1, 2], cand=[[0, 1], [1, 0], [2, 1], [1, 2]], shapes=[1, 1], used=[0])))
    if tier == 'thorough':
        add(n=2, ids=[0, 1, 2, 3], cand=[[0, 1], [1, 2], [2, 3], [3, 0], [0, 2]], shapes=[1, 1])
        add(n=3, ids=[0, 1, 2, 3], cand=[[0, 1], [1, 2], [2, 3], [3, 0]], shapes=[1, 1])
        add(n=4, ids=[0, 1, 2, 3], cand=[[0, 1], [1, 2], [2, 3], [3, 0]], shapes=[1, 1], method='metis')
    return out
