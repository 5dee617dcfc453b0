"""R18: agents near a rank's border are visible on the neighboring ranks."""
from lib.runner import Job
from lib import topo
from lib.pysym.ops import conj, disj, neg, eq
from checks.ctx_common import SpaceHarness, make_agent_class, near, val, pick, cfgs_of, Batch

FUNCTIONS = ['space.SharedGrid._pre_synch_ghosts/_synch_ghosts/_fill_send_data/_process_recv_data/_gather_1d/_gather_2d/_gather_3d',
             'space.SharedCSpace (same methods)', 'context.SharedContext.synchronize/_gather_oob_data/_process_recv_oob_data/_update_ghosts/_update_removed_ghosts/remove',
             'core.AgentManager.*']
BOUNDS = {
    'quick': ['2, 3 and 4 ranks, 1-3 dimensions, grid extents 6 - 12, buffer sizes 1 and 2, sticky and periodic, grid and continuous space',
              '1-2 agents (2-3 where they start at one location; also one that another rank has requested) at any location (continuous: multiples of 1/4); 2-3 synchronizations with, in between, any moves (also to other ranks), state changes and a removal by any owner'],
    'thorough': ['also 6 and 9 ranks, 2-3 agents, buffer 3']}
ASSUMPTIONS = ['the compiled _space module is replaced by its contract (decided by R11 - R17); local bounds and buffer regions are taken from the freshly built extension',
               'mpi4py stub: N simulated ranks with blocking collectives; transmitted data is deep-copied',
               'buffer size at most the smallest local extent']
LABELS = ['owner', 'visible', 'copy', 'occupants']


class Visible(SpaceHarness):
    name = 'visible'
    nag = 1
    script = 'mM'
    together = False
    req = False            # one more rank requests agent 0 before the first synchronization

    def run(self, env):
        r4 = env.r4
        ctx = r4.context.SharedContext(env.comm)
        sp = self.make_space(env, env.comm)
        ctx.add_projection(sp)
        locs = self.locals_(env, sp)
        A, restore = make_agent_class(r4)
        me = env.rank
        ag = []
        for k in range(self.nag):
            # (uid, current rank, position, state); the model is the same on every rank
            if k and self.together:
                o, p = ag[0]['rank'], ag[0]['p']
            else:
                o = env.choice(f'owner{k}', self.n)
                p = self.pos(env, f'p{k}_0', locs[o])
            s = env.int(f's{k}_0')
            m = dict(uid=(k, k % 2, o), rank=o, p=p, s=s, hist=[p])
            ag.append(m)
            if o == me:
                a = A(k, k % 2, o, s)
                ctx.add(a)
                sp.move(a, self.point(env, p))
        env.requester = None
        if self.req:
            # the copy asked for stays wherever the agent is, but it is in the space only while the agent is near
            m = ag[0]
            env.requester = (m['rank'] + 1 + env.choice('req', self.n - 1)) % self.n if self.n > 2 else 1 - m['rank']
            ctx.request_agents([(m['uid'], m['rank'])] if env.requester == me else [], restore)
        ctx.synchronize(restore)
        out = [self.judge(env, ctx, sp, locs, ag, 's0')]
        for si, op in enumerate(self.script):
            if op == 'x':
                k = env.choice(f'rm{si}', self.nag + 1)
                if k < self.nag and ag[k]['rank'] is not None:
                    m = ag[k]
                    if m['rank'] == me:
                        ctx.remove(ctx.agent(m['uid']))
                    m['rank'] = None
            else:
                who = range(self.nag) if op == 'M' else [env.choice(f'mv{si}', self.nag)]
                for k in who:
                    m = ag[k]
                    if m['rank'] is None:
                        continue
                    p = self.pos(env, f'p{k}_{si + 1}', self.bounds)
                    s = env.int(f's{k}_{si + 1}')
                    if m['rank'] == me:
                        a = ctx.agent(m['uid'])
                        a.state = s
                        sp.move(a, self.point(env, p))
                    m['p'], m['s'] = p, s
                    m['hist'].append(p)
                    m['rank'] = self.owner(p, locs)
                    if k == 0 and m['rank'] == env.requester:
                        env.requester = None      # local there now
            ctx.synchronize(restore)
            out.append(self.judge(env, ctx, sp, locs, ag, f's{si + 1}'))
        return out

    def judge(self, env, ctx, sp, locs, ag, tag):
        me = env.rank
        res = []
        B = Batch(env)
        det = lambda m=None: f"{tag} rank {me}/{self.n} {self.bounds} agents {[(x['uid'], x['rank'], x['hist']) for x in ag]} " + (f"at {m['uid']}" if m else '')
        for m in ag:
            loc, gh = ctx.agent(m['uid']), ctx.ghost_agent(m['uid'])
            B.check((loc is not None) == (m['rank'] == me), 'owner', lambda: f'{det(m)} local here: {loc is not None}')
            if m['rank'] is None:
                B.check(gh is None, 'visible', lambda: f'{det(m)} removed but still a ghost')
                continue
            a = loc
            if m['rank'] == me:
                B.check(gh is None, 'visible', lambda: f'{det(m)} local and also a ghost')
            else:
                expn = lambda: near(m['p'], locs[me], self.bounds, self.periodic, self.buffer, self.nd)
                if m is ag[0] and env.requester == me:
                    B.check(gh is not None, 'visible', lambda: f'{det(m)} requested, but no ghost here')
                    B.check(lambda: eq_b(gh is not None and gh in sp and self.loc(sp, gh) is not None, expn()), 'copy', lambda: f'{det(m)} requested, has a location {gh in sp and self.loc(sp, gh)}, expected {expn()}')
                else:
                    B.check(lambda: eq_b(gh is not None, expn()), 'visible', lambda: f'{det(m)} ghost here: {gh is not None}, expected {expn()}')
                a = gh
            if a is None:
                continue
            here = a in sp
            B.check(here or (m is ag[0] and env.requester == me), 'copy', lambda: f'{det(m)} not in the space')
            l = self.loc(sp, a) if here else None
            away = m is ag[0] and env.requester == me and l is None     # a requested copy that is not near
            B.check(lambda: away or (l is not None and eq(l, m['p'])), 'copy', lambda: f'{det(m)} location {l}')
            B.check(lambda: eq(a.state, m['s']), 'copy', lambda: f'{det(m)} state {a.state}')
            B.check(a.uid == m['uid'] and a.local_rank == m['rank'], 'copy', lambda: f'{det(m)} local_rank {a.local_rank}')
            res.append([list(a.uid), l, a.state])
        # occupants of every location any agent is or ever was at
        for m in ag:
            for q in m['hist']:
                got = sorted(x.uid for x in sp.get_agents(self.point(env, q)))
                for x in ag:
                    cnt = got.count(x['uid'])
                    if env.replaying:
                        continue
                    if x['rank'] is None:
                        exp = False
                    else:
                        exp = eq(x['p'], q)
                        if x['rank'] != me:
                            exp = conj([exp, near(x['p'], locs[me], self.bounds, self.periodic, self.buffer, self.nd)])
                    B.check(eq_b(cnt == 1, exp) if cnt < 2 else False, 'occupants', lambda: f'{det(m)} at {q}: {got}')
        B.done()
        return res


def eq_b(a, b):
    """a (bool) iff b (condition)"""
    return b if a else neg(b)


def jobs(tier):
    out = []

    def add(n, bounds, periodic, buffer, cspace=False, nag=1, script='mM', pins=None, together=False, req=False):
        kw = dict(n=n, bounds=list(bounds) + [0] * (6 - len(bounds)), periodic=periodic, buffer=buffer, cspace=cspace, nag=nag, script=script)
        if together:
            kw['together'] = True
        if req:
            kw['req'] = True
        for o in range(n):
            out.append(Job(Visible, kw, pin={'owner0': o}))
    for per in (False, True):
        for cs in (False, True):
            add(2, [0, 8], per, 1, cs, script='mmx' if not cs else 'mx')
            add(3, [-3, 9], per, 2, cs, script='mm')
            if per != cs:
                add(4, [0, 8, 2, 6], per, 1, cs, script='m')
            add(2, [1, 4, 0, 2, 0, 2], per, 1, cs, script='mx')
            add(2, [0, 8], per, 2, cs, nag=3 if not cs else 2, script='', together=True)
            add(2, [0, 6, 0, 3], per, 1, cs, nag=2, script='m' if per == cs else '', together=True)
            add(2, [1, 4, 0, 2, 0, 2], per, 1, cs, nag=2, script='', together=True)
        add(2, [0, 8], per, 1, per, script='mmx', req=True)
        add(3, [0, 12], per, 1, not per, script='mm', req=True)
        add(3, [0, 6], per, 1, False, nag=2, script='m')
        add(2, [0, 6], per, 2, True, nag=2, script='m')
        add(4, [0, 6, 0, 4], per, 2, per, script='m')
        add(3, [0, 6, 0, 4], per, 1, not per, script='m')
        add(4, [0, 4, 1, 4, 0, 2], per, 1, not per, script='m')
    if tier == 'thorough':
        for per in (False, True):
            for cs in (False, True):
                add(4, [0, 8], per, 2, cs, nag=2, script='mmx')
                add(9, [0, 9, 0, 9], per, 2, cs, script='m')
                add(6, [0, 6, 0, 6], per, 2, cs, script='mx')
                add(8, [0, 6, 0, 6, 0, 6], per, 1, cs, script='m')
                add(3, [0, 9], per, 3, cs, nag=2, script='mMx')
                add(4, [0, 8, 2, 6], per, 1, cs, nag=2, script='m')
    return out


def prepare(tier):
    topo.prepare(cfgs_of(jobs(tier)))
