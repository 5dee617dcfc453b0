"""R06: the context reports exactly the agents it holds."""
from lib.harness import Harness
from lib.runner import Job

FUNCTIONS = ['context.SharedContext.add/remove/agents/agent/size/contains_type', 'core.AgentManager.add_local/get_local/delete_local']
BOUNDS = {
    'quick': ['all sequences of <= 4 additions and removals over 4 agents of 3 types (ids may coincide across types), any number of agents requested in [0, 6], shuffled or not (every permutation), any type incl. one never added'],
    'thorough': ['all sequences of <= 6 additions and removals over 5 agents']}
ASSUMPTIONS = ['the compiled Agent base class is replaced by its contract (uid, local_rank)', 'random generator stub: any permutation']
LABELS = ['iteration', 'lookup', 'by-type', 'size', 'contains-type', 'count', 'unchanged']


class Ctx(Harness):
    name = 'context-queries'
    modules = ('core', 'context', 'random')
    nops = 4
    nag = 4

    def run(self, env):
        r4 = env.r4
        r4.random.default_rng = env.rng()
        ctx = r4.context.SharedContext(env.comm)
        class A(r4.core.Agent):
            pass
        types = [[0, 0, 1, 2, 0], [0, 1, 0, 1, 2]][env.choice('types', 2)]
        ids = [[0, 1, 0, 1, 2], [0, 0, 1, 1, 0]][env.choice('ids', 2)]
        if len({(i, t) for i, t in zip(ids[:self.nag], types[:self.nag])}) != self.nag:
            env.assume(False)
        ags = [A(ids[i], types[i], env.rank) for i in range(self.nag)]
        present = []
        ops = []
        for k in range(self.nops):
            j = env.choice(f'op{k}', self.nag)
            a = ags[j]
            if a in present:
                ctx.remove(a)
                present.remove(a)
                ops.append(f'remove {a.uid}')
            else:
                ctx.add(a)
                present.append(a)
                ops.append(f'add {a.uid}')
        det = lambda: f'{ops}: expected {[a.uid for a in present]}'

        def same(x, y):
            x = list(x)
            return len(x) == len(y) and all(a is b for a, b in zip(x, y))

        def full(label):
            env.check(same(ctx.agents(), present), label, lambda: f'{det()} got {[a.uid for a in ctx.agents()]}')
            for t in range(3):
                ex = [a for a in present if a.uid[1] == t]
                env.check(same(ctx.agents(t), ex), label if label == 'unchanged' else 'by-type', lambda: f'{det()} type {t} got {[a.uid for a in ctx.agents(t)]}')
        full('iteration')
        for a in ags:
            env.check(ctx.agent(a.uid) is (a if a in present else None), 'lookup', lambda: f'{det()} agent({a.uid}) = {ctx.agent(a.uid)}')
            env.check(a not in present or a.local_rank == env.rank, 'lookup', det)
        env.check(ctx.agent((99, 0, env.rank)) is None, 'lookup', det)
        cnt = {t: len([a for a in present if a.uid[1] == t]) for t in range(3)}
        env.check(ctx.size() == {-1: len(present)}, 'size', lambda: f'{det()} {ctx.size()}')
        env.check(ctx.size([0, 1, 2]) == cnt, 'size', lambda: f'{det()} {ctx.size([0, 1, 2])}')
        for t in range(3):
            env.check(bool(ctx.contains_type(t)) == (cnt[t] > 0), 'contains-type', det)
        t = [None, 0, 1, 2][env.choice('qtype', 4)]
        shuffle = bool(env.choice('shuffle', 2))
        n = [None, 'c'][env.choice('counted', 2)]
        if n:
            n = env.choice_range('count', 0, 6)
        got = list(ctx.agents(agent_type=t, count=n, shuffle=shuffle))
        ex = [a for a in present if t is None or a.uid[1] == t]
        k = len(ex) if n is None else min(n, len(ex))
        d2 = lambda: f'{det()} agents({t}, {n}, {shuffle}) = {[a.uid for a in got]}'
        env.check(len(got) == k and len({a.uid for a in got}) == k and all(any(a is b for b in ex) for a in got), 'count', d2)
        if not shuffle:
            env.check(same(got, ex[:k]), 'count', d2)
        got.clear()
        full('unchanged')
        return [[a.uid for a in present], ops]


def jobs(tier):
    out = []
    nops, nag = (4, 4) if tier == 'quick' else (6, 5)
    for j in range(nag):
        for q in range(4):
            for i in range(nag):
                for s in range(2):
                    out.append(Job(Ctx, dict(nops=nops, nag=nag), pin={'op0': j, 'op1': i, 'qtype': q, 'shuffle': s}))
    for n in range(0, 4):
        out.append(Job(Ctx, dict(nops=n, nag=3)))
    return out
