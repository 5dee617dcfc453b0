"""R03: a voided event never executes again and voiding affects nothing else."""
from lib.harness import Harness
from lib.runner import Job
from lib.pysym.ops import conj, disj, neg, eq, implies
from checks.sched_common import Ev, SchedRun, occurrence_spec, RANDOM, FIRST, LAST, BY_PRIORITY
from checks.r02 import must_precede

FUNCTIONS = ['schedule.OneTimeEvent.void', 'schedule.RepeatingEvent.void', 'schedule.ScheduleGroup.*', 'schedule.Schedule.*',
             'schedule.SharedScheduleRunner.*']
BOUNDS = {
    'quick': ['<= 3 user events (one-time or repeating, any priority kind), any ticks that are multiples of 1/8 in [0, 2] and intervals in [1, 2], any stop tick in [0, 2]; '
              'any one of them voided before the run or by the first or second execution of any event (itself included), and possibly a second one'],
    'thorough': ['<= 4 user events; two voids by different events']}
ASSUMPTIONS = ['dyadic ticks (exact in double arithmetic)', 'random generator stub: any permutation / any index in range',
               'mpi4py communicator of size 1 stub']
LABELS = ['voided-never-executes', 'voided-ran-until-then', 'others-unaffected', 'others-order']


class Void(Harness):
    name = 'void'
    modules = ('schedule',)
    max_collectives = 60
    hi = 2
    ats = None
    voider = '?'       # -1: before the run; i: event i
    target = '?'
    second = None      # [voider, target]
    nth = 1            # on which execution of the voider

    def run(self, env):
        n = len(self.parents)
        evs = []
        for i in range(n):
            pt = self.types[i]
            if pt == '?':
                pt = env.choice(f'type{i}', 4)
            k = self.kinds[i]
            if k == '?':
                k = 'or'[env.choice(f'kind{i}', 2)]
            prio = env.real(f'prio{i}') if pt == BY_PRIORITY else None
            at = self.ats[i] if self.ats else env.tick(f'at{i}', 0, self.hi)
            evs.append(Ev(i, at, k, (env.tick(f'iv{i}', 1, self.hi) if not self.ats else 1) if k == 'r' else None, pt, prio))
        stop = env.tick('stop', 0, self.hi) if not self.ats else self.hi
        voids = []
        for q, (v, t) in enumerate([(self.voider, self.target)] + ([self.second] if self.second else [])):
            if v == '?':
                v = env.choice_range(f'voider{q}', -1, n - 1)
            if t == '?':
                t = env.choice(f'target{q}', n)
            voids.append((v, t))
        conds = []

        def on_exec(r, e, tick):
            for f in evs:
                if f is e or not f.scheduled or f.voided_at is not None or f.kind != 'o' or f.ticks:
                    continue
                mp = must_precede(f, e)
                if mp is False:
                    continue
                pend = conj([eq(f.at, tick), f.sched <= f.at if f.sched is not None else f.at >= 0])
                conds.append(implies(pend, neg(mp)))

        class Run(SchedRun):
            def fire(self, e):
                super().fire(e)
                if len(e.ticks) == harness.nth:
                    for v, t in voids:
                        if v == e.i:
                            self.void(t)
        harness = self
        r = Run(env, evs, self.parents, stop, voids={-1: [t for v, t in voids if v == -1]}, on_exec=on_exec)
        log = r.go()
        det = lambda: f'log {log} voids {voids} kinds {[e.kind for e in evs]} types {[e.ptype for e in evs]} at {[e.at for e in evs]} stop {stop}'
        for e in evs:
            if not e.scheduled:
                continue
            if e.voided_at is None:
                for lab, c in occurrence_spec(e, stop).items():
                    env.check(c, 'others-unaffected', det)
                continue
            env.check(all(i != e.i for i, _ in log[e.voided_at:]), 'voided-never-executes', det)
            # until it was voided it behaved as scheduled
            valid = (e.at >= 0) if e.sched is None else (e.at >= e.sched)
            t, ok = e.at, []
            for x in e.ticks:
                ok += [valid, eq(t, x)]
                t = t + e.interval if e.kind == 'r' else None
            if t is not None:
                # the next occurrence was still ahead (or due in the tick) when the void happened
                ok.append(disj([neg(valid), t >= e.void_tick if e.void_tick is not None else True]))
            elif len(e.ticks) > 1:
                ok.append(False)
            env.check(conj(ok), 'voided-ran-until-then', det)
        env.check(conj(conds), 'others-order', det)
        return log


def jobs(tier):
    out = []
    B, R, F, L = BY_PRIORITY, RANDOM, FIRST, LAST
    for v in (-1, 0, 1):
        for t in (0, 1):
            for par in ([-1, -1], [-1, 0]):
                out.append(Job(Void, dict(parents=par, kinds=['?', '?'], types=[L, R], voider=v, target=t)))
    out.append(Job(Void, dict(parents=[-1, -1], kinds='oo', types=['?', '?'])))
    out.append(Job(Void, dict(parents=[-1, 0], kinds='oo', types=['?', '?'])))
    for v in (0, 1):
        for t in (0, 1):
            out.append(Job(Void, dict(parents=[-1, -1], kinds='rr', types=[F, B], voider=v, target=t, nth=2, hi=3)))
    # everything in one tick: voider, target, bystander of any kinds
    for v in (-1, 0, 1, 2):
        for t0 in range(4):
            for par in ([-1, -1, -1], [-1, -1, 0]):
                out.append(Job(Void, dict(parents=par, kinds='ooo', types=[t0, '?', '?'], ats=[1, 1, 1], voider=v)))
                out.append(Job(Void, dict(parents=par, kinds='oro', types=[t0, '?', '?'], ats=[1, 1, 1], voider=v)))
    for v in (0, 1, 2):
        for t in (0, 1, 2):
            out.append(Job(Void, dict(parents=[-1, -1, -1], kinds='oro', types=[L, L, L], voider=v, target=t)))
            out.append(Job(Void, dict(parents=[-1, -1, 0], kinds='ooo', types=[L, F, L], voider=v, target=t)))
    out.append(Job(Void, dict(parents=[-1, -1, -1], kinds='rro', types=[L, L, L], ats=[1, 1, 2], hi=3, second=['?', '?'])))
    out.append(Job(Void, dict(parents=[-1, -1, 0], kinds='oro', types=[L, F, B], ats=[1, 1, 1], second=['?', '?'])))
    if tier == 'thorough':
        for t0 in range(4):
            for t1 in range(4):
                out.append(Job(Void, dict(parents=[-1, -1, -1], kinds=['?', '?', '?'], types=[t0, t1, '?'], ats=[1, 1, 1], second=['?', '?'], hi=3)))
                out.append(Job(Void, dict(parents=[-1, -1, 0, 1], kinds='orro', types=[t0, t1, R, '?'], ats=[1, 1, 1, 1], second=['?', '?'])))
        for v in (0, 1, 2):
            for t in (0, 1, 2):
                for ks in ('ror', 'rro', 'orr'):
                    out.append(Job(Void, dict(parents=[-1, -1, -1], kinds=ks, types=[L, L, L], voider=v, target=t, hi=3)))
    return out
