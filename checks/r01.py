"""R01: every scheduled event runs exactly when, and as often as, it was scheduled."""
from lib.harness import Harness
from lib.runner import Job
from lib.pysym.ops import conj
from checks.sched_common import Ev, SchedRun, occurrence_spec, RANDOM, FIRST, LAST, BY_PRIORITY

FUNCTIONS = ['schedule.Schedule.*', 'schedule.ScheduleGroup.*', 'schedule.OneTimeEvent', 'schedule.RepeatingEvent',
             'schedule.SharedScheduleRunner.schedule_event/schedule_repeating_event/schedule_stop/execute/tick', 'schedule.create_arg_evt']
BOUNDS = {
    'quick': ['<= 4 user events + stop (some configurations 5), each one-time or repeating, scheduled before the run or by another event',
              'ticks: all multiples of 1/8 in [-1, 3], intervals multiples of 1/8 in [1, 3], stop tick in [0, 3]; with 2 events also intervals in [1/4, 1] ([1/8, 1] with 1 event), and ticks that are multiples of 2^-20',
              'priority kinds arbitrary where stated by the job, one rank'],
    'thorough': ['<= 5 user events + stop, ticks multiples of 1/8 in [-1, 4]', 'one rank']}
ASSUMPTIONS = ['ticks and intervals are dyadic rationals, for which double arithmetic is exact',
               'random generator stub: shuffle returns an arbitrary permutation, integers an arbitrary value in range',
               'mpi4py communicator of size 1 stub']
OUTSIDE = ['more events, ticks for which at + interval rounds']
LABELS = ['exactly-once', 'at-its-tick', 'repeats', 'ticks-monotone', 'terminates']


class Occur(Harness):
    """parents: -1 = scheduled before the run, j = by event j's first execution; kinds 'o','r','?'; types"""
    name = 'occurrences'
    modules = ('schedule',)
    max_collectives = 60
    hi = 3
    ivlo, den = 1, 8

    def run(self, env):
        evs = []
        for i, (p, k) in enumerate(zip(self.parents, self.kinds)):
            if k == '?':
                k = 'or'[env.choice(f'kind{i}', 2)]
            pt = self.types[i]
            if pt == '?':
                pt = env.choice(f'type{i}', 4)
            at = env.tick(f'at{i}', -1, self.hi, self.den)
            iv = env.tick(f'iv{i}', self.ivlo, self.hi, self.den) if k == 'r' else None
            evs.append(Ev(i, at, k, iv, pt, i % 2))
        stop = env.tick('stop', 0, self.hi, self.den)
        r = SchedRun(env, evs, self.parents, stop)
        log = r.go()
        # conditions are decided here, where the objects live
        prev = None
        mono = []
        for _, t in log:
            if prev is not None:
                mono.append(t >= prev)
            prev = t
        env.check(conj(mono), 'ticks-monotone', lambda: log)
        for e in evs:
            if e.scheduled:
                for lab, c in occurrence_spec(e, stop).items():
                    env.check(c, lab, lambda: f'event {e.i} at {e.at} kind {e.kind} every {e.interval} scheduled at tick {e.sched} stop {stop}: log {log}')
        env.check(True, 'terminates')
        return log

    def on_deadlock(self, env, exc):
        env.fail('terminates', str(exc))


def jobs(tier):
    R = RANDOM
    out = []
    L = LAST
    for par in ([-1, -1, -1], [-1, -1, 0], [-1, 0, 0], [-1, 0, 1]):
        # three one-time events with random order, and with one / two repeating ones
        out.append(Job(Occur, dict(parents=par, kinds='ooo', types=[R, R, R])))
        for kinds in ('roo', 'oro', 'oor'):
            out.append(Job(Occur, dict(parents=par, kinds=kinds, types=[L, L, L], hi=2)))
        if tier == 'thorough':
            for kinds in ('rro', 'ror', 'orr', 'roo', 'oor'):
                out.append(Job(Occur, dict(parents=par, kinds=kinds, types=[R, L, R])))
    for par in ([-1, -1], [-1, 0]):
        out.append(Job(Occur, dict(parents=par, kinds='rr', types=[L, L], hi=2)))
        # short intervals, and ticks that are close together
        out.append(Job(Occur, dict(parents=par, kinds='ro', types=[L, R], hi=1, ivlo=.25, den=16)))
        out.append(Job(Occur, dict(parents=par, kinds='oo', types=[R, '?'], hi=2, den=2 ** 20)))
    out.append(Job(Occur, dict(parents=[-1], kinds='r', types=['?'], hi=1, ivlo=.125, den=16)))
    # all priority kinds with re-entrant scheduling
    for t0 in range(4):
        out.append(Job(Occur, dict(parents=[-1, 0], kinds=['?', '?'], types=[t0, '?'], hi=2)))
        for t1 in range(4):
            out.append(Job(Occur, dict(parents=[-1, -1, 0], kinds=['o', 'o', 'o'], types=[t0, t1, '?'])))
            out.append(Job(Occur, dict(parents=[-1, 0, 1], kinds=['o', 'o', 'o'], types=[t0, t1, '?'])))
    for par in ([-1, -1, -1, -1], [-1, -1, -1, 0], [-1, -1, 0, 1], [-1, 0, 0, 1], [-1, 0, 1, 2]):
        out.append(Job(Occur, dict(parents=par, kinds='oooo', types=[LAST, LAST, LAST, LAST])))
        out.append(Job(Occur, dict(parents=par, kinds='oooo', types=[FIRST, LAST, R, BY_PRIORITY])))
    if tier == 'thorough':
        for par in ([-1, -1, -1, -1, -1], [-1, -1, -1, 0, 1], [-1, -1, 0, 0, 1], [-1, 0, 1, 2, 3]):
            out.append(Job(Occur, dict(parents=par, kinds='ooooo', types=[LAST] * 5)))
            out.append(Job(Occur, dict(parents=par, kinds='ooooo', types=[R, LAST, FIRST, LAST, BY_PRIORITY])))
        for par in ([-1, -1, -1, 0], [-1, -1, 0, 1]):
            for kinds in ('roor', 'orro'):
                out.append(Job(Occur, dict(parents=par, kinds=kinds, types=[LAST] * 4)))
    return out
