"""R02: priorities order the events of one tick."""
from lib.harness import Harness
from lib.runner import Job
from lib.pysym.ops import conj, disj, neg
from checks.sched_common import Ev, SchedRun, RANDOM, FIRST, LAST, BY_PRIORITY

FUNCTIONS = ['schedule.ScheduleGroup.*', 'schedule.Schedule.*', 'schedule.OneTimeEvent', 'schedule.RepeatingEvent',
             'schedule.SharedScheduleRunner.*']
BOUNDS = {
    'quick': ['<= 4 user events in one tick, any combination of the four priority kinds, numeric priorities any multiple of 1/64 in [-8, 8], '
              'up to 2 of them added by another event while the tick executes; repeating events over 2 ticks; every outcome of the random generator'],
    'thorough': ['<= 5 user events in one tick, up to 3 added while the tick executes; 3 events over 3 ticks']}
ASSUMPTIONS = ['numeric priorities are not NaN (only their order matters to the code)', 'random generator stub: any permutation / any index in range',
               'mpi4py communicator of size 1 stub']
LABELS = ['order-within-tick', 'all-executed']
CLS = {FIRST: 0, RANDOM: 1, BY_PRIORITY: 1, LAST: 2}


def must_precede(f, e):
    if CLS[f.ptype] != CLS[e.ptype]:
        return CLS[f.ptype] < CLS[e.ptype]
    if f.ptype in (FIRST, LAST):
        return f.order < e.order
    if f.ptype == BY_PRIORITY and e.ptype == BY_PRIORITY:
        return f.prio < e.prio
    return False


class Order(Harness):
    name = 'order'
    modules = ('schedule',)
    max_collectives = 60
    ats = None
    stop = 3
    kinds = None

    def run(self, env):
        evs = []
        n = len(self.parents)
        ats = self.ats or [1] * n
        kinds = self.kinds or 'o' * n
        for i in range(n):
            pt = self.types[i]
            if pt == '?':
                pt = env.choice(f'type{i}', 4)
            elif isinstance(pt, list):
                pt = pt[env.choice(f'type{i}', len(pt))]
            prio = env.tick(f'prio{i}', -8, 8, 64) if pt == BY_PRIORITY else None
            evs.append(Ev(i, ats[i], kinds[i], 1, pt, prio))
        conds = []

        def on_exec(r, e, tick):
            for f in evs:
                if f is e or not f.scheduled:
                    continue
                if f.kind == 'o':
                    pend = not f.ticks and f.at == tick and (f.sched is None or f.sched <= f.at)
                else:
                    start = f.at0
                    due = tick >= start and (tick - start) % 1 == 0
                    pend = due and not any(t == tick for t in f.ticks)
                if pend:
                    c = neg(must_precede(f, e))
                    if c is not True:
                        conds.append((c, f'event {f.i} ({f.ptype}, {f.prio}) pending when {e.i} ({e.ptype}, {e.prio}) ran at {tick}'))
        for e in evs:
            e.at0 = e.at
        r = SchedRun(env, evs, self.parents, self.stop, on_exec=on_exec)
        log = r.go()
        env.check(conj([c for c, _ in conds]), 'order-within-tick',
                  lambda: f'log {log} types {[e.ptype for e in evs]}; obligations {[d for _, d in conds][:6]}')
        env.check(all(e.ticks for e in evs), 'all-executed', lambda: f'log {log} of {n} events types {[e.ptype for e in evs]}')
        return log


def jobs(tier):
    out = []
    B, R, F, L = BY_PRIORITY, RANDOM, FIRST, LAST
    for t in range(4):
        out.append(Job(Order, dict(parents=[-1, -1, -1], types=[t, '?', '?'])))
        for u in range(4):
            for par in ([-1, -1, 0], [-1, -1, 1], [-1, 0, 1], [-1, 0, 0]):
                out.append(Job(Order, dict(parents=par, types=[t, u, '?'])))
            # two initial, two added; three initial, one added
            out.append(Job(Order, dict(parents=[-1, -1, 0, 0], types=[t, u, '?', '?'])))
            out.append(Job(Order, dict(parents=[-1, -1, -1, 0], types=[t, u, '?', '?'])))
            out.append(Job(Order, dict(parents=[-1, -1, -1, 1], types=[t, [R, B], u, '?'])))
            # repeating events: their place among events scheduled later
            out.append(Job(Order, dict(parents=[-1, -1, 0], types=[t, u, '?'], kinds='ror', ats=[1, 2, 2])))
            out.append(Job(Order, dict(parents=[-1, -1, -1], types=[t, u, t], kinds='rro', ats=[1, 1, 2])))
    out.append(Job(Order, dict(parents=[-1, -1, -1, -1], types=[B, R, B, [R, B]])))
    out.append(Job(Order, dict(parents=[-1] * 4, types=[B, B, B, R])))
    if tier == 'thorough':
        out.append(Job(Order, dict(parents=[-1] * 4, types=['?', '?', '?', '?'])))
        out.append(Job(Order, dict(parents=[-1] * 5, types=[B, R, B, R, B])))
        for t in range(4):
            for u in range(4):
                for par in ([-1, -1, -1, 0, 1], [-1, -1, 0, 0, 2], [-1, -1, -1, -1, 1]):
                    out.append(Job(Order, dict(parents=par, types=[t, u, [R, B], '?', [F, L, B]])))
                out.append(Job(Order, dict(parents=[-1, -1, 0], types=[t, u, '?'], kinds='rrr', ats=[1, 1, 2], stop=4)))
    return out
