"""R04: ranks execute ticks in lock step, and a stop ends the run on its tick."""
from lib.harness import Harness
from lib.runner import Job
from lib.pysym.ops import conj, disj, neg, eq
from checks.sched_common import Ev, SchedRun, occurrence_spec, RANDOM, FIRST, LAST, BY_PRIORITY

FUNCTIONS = ['schedule.SharedScheduleRunner.*', 'schedule.Schedule.*', 'schedule.ScheduleGroup.*']
BOUNDS = {
    'quick': ['2 ranks with 0-3 and 3 ranks with 0-2 user events each (one-time or repeating), any ticks and stop tick that are multiples of 1/8 in [0, 3], intervals in [1, 3]; multiples of 2^-20 in [0, 2], intervals of at least 1/4; '
              'the stop scheduled before or after the other events, or requested by an event, and end events on each rank'],
    'thorough': ['2-4 ranks, up to 3 events per rank']}
ASSUMPTIONS = ['mpi4py stub: N simulated ranks, allreduce is a rendezvous of all ranks; ranks interact only through collectives',
               'dyadic ticks (exact in double arithmetic)']
LABELS = ['lock-step', 'exactly-once', 'end-events', 'terminates', 'no-event-after-stop']


class CountComm:
    """Communicator that counts the collectives its rank has completed (the rank's logical clock)."""

    def __init__(self, comm):
        self._comm = comm
        self.clock = 0

    def __getattr__(self, n):
        a = getattr(self._comm, n)
        if n in ('allreduce', 'Allreduce', 'allgather', 'Barrier', 'barrier', 'alltoall', 'Allgather'):
            def f(*args, **kw):
                r = a(*args, **kw)
                self.clock += 1
                return r
            return f
        return a


class LockStep(Harness):
    name = 'lockstep'
    modules = ('schedule',)
    max_collectives = 45
    hi = 3
    ivlo, den = 1, 8
    stop_via = 'schedule'
    stop_first = False
    chain = False          # the last event of a rank is scheduled by its first one
    kinds = 'ooo'

    @property
    def ranks(self):
        return len(self.counts)

    def run(self, env):
        comm = CountComm(env.comm)
        S = env.r4.schedule
        env.r4.random.default_rng = env.rng()
        runner = S.init_schedule_runner(comm)
        r = env.rank
        stop = env.tick('stop', 0, self.hi, self.den)
        log = []
        evs = []
        for i in range(self.counts[r]):
            k = self.kinds[i]
            e = Ev((r, i), env.tick(f'at{r}_{i}', 0, self.hi, self.den), k, env.tick(f'iv{r}_{i}', self.ivlo, self.hi, self.den) if k == 'r' else None, LAST, None)
            evs.append(e)
        ends = []
        last = evs[-1] if self.chain and len(evs) > 1 else None
        running = [False]

        def sched(e):
            e.sched = runner.tick() if running[0] else None
            e.scheduled = True
            cb = S.create_arg_evt(fire, e)
            if e.kind == 'r':
                runner.schedule_repeating_event(e.at, e.interval, cb, priority_type=S.PriorityType.LAST)
            else:
                runner.schedule_event(e.at, cb, priority_type=S.PriorityType.LAST)

        def fire(e):
            t = runner.tick()
            e.ticks.append(t)
            log.append((comm.clock, t))
            if last is not None and e is evs[0] and not last.scheduled:
                sched(last)

        def do_stop():
            if self.stop_via == 'schedule':
                runner.schedule_stop(stop)
            else:
                runner.schedule_event(stop, runner.stop)
        if self.stop_first:
            do_stop()
        for e in evs:
            if e is not last:
                sched(e)
        runner.schedule_end_event(lambda: ends.append((len(log), 0)))
        runner.schedule_end_event(lambda: ends.append((len(log), 1)))
        if not self.stop_first:
            do_stop()
        running[0] = True
        runner.execute()
        for e in evs:
            if e.scheduled:
                for lab, c in occurrence_spec(e, stop).items():
                    env.check(c, 'exactly-once', lambda: f'{lab}: event {e.i} at {e.at} every {e.interval} stop {stop} ticks {e.ticks}')
        env.check(conj([t <= stop for _, t in log]), 'no-event-after-stop', lambda: log)
        env.check(ends == [(len(log), 0), (len(log), 1)], 'end-events', lambda: f'{ends} log {log}')
        env.check(True, 'terminates')
        return log

    def post(self, env, outs):
        conds = []
        for i, a in enumerate(outs):
            for j, b in enumerate(outs):
                if i == j:
                    continue
                for ca, ta in a:
                    for cb, tb in b:
                        if not ca < cb:
                            conds.append(neg(ta < tb))
        env.check(conj(conds), 'lock-step', lambda: f'(clock, tick) logs {outs}')

    def on_deadlock(self, env, exc):
        env.fail('terminates', str(exc))


def jobs(tier):
    out = []
    for counts in ([1, 1], [2, 1], [1, 2], [0, 1], [2, 0], [0, 0], [2, 2], [3, 0], [1, 3]):
        for sf in (False, True):
            out.append(Job(LockStep, dict(counts=counts, stop_first=sf)))
    for counts in ([1, 1, 1], [0, 1, 1], [2, 0, 1], [0, 0, 1], [1, 2, 1]):
        for sf in (False, True):
            out.append(Job(LockStep, dict(counts=counts, stop_first=sf, hi=2)))
    for counts in ([2, 1], [1, 2], [2, 0], [2, 2]):
        out.append(Job(LockStep, dict(counts=counts, chain=True)))
        out.append(Job(LockStep, dict(counts=counts, stop_via='call')))
        out.append(Job(LockStep, dict(counts=counts, kinds='ro', hi=2)))
    out.append(Job(LockStep, dict(counts=[1, 1], kinds='rr', hi=2)))
    for counts in ([1, 1], [2, 1], [1, 2], [0, 1]):
        out.append(Job(LockStep, dict(counts=counts, hi=2, den=2 ** 20)))
    out.append(Job(LockStep, dict(counts=[1, 1], kinds='r', hi=1, ivlo=.25, den=16)))
    out.append(Job(LockStep, dict(counts=[1, 1, 1], hi=1, den=2 ** 20)))
    if tier == 'thorough':
        for counts in ([3, 2], [3, 3], [2, 2, 1], [2, 2, 2], [1, 1, 1, 1], [2, 1, 0, 1], [0, 0, 2, 1]):
            for kw in (dict(), dict(stop_first=True), dict(chain=True)):
                out.append(Job(LockStep, dict(counts=counts, **kw)))
        for counts in ([2, 1], [1, 2], [2, 2], [1, 1, 1]):
            out.append(Job(LockStep, dict(counts=counts, kinds='rr')))
            out.append(Job(LockStep, dict(counts=counts, kinds='or', chain=True)))
    return out
