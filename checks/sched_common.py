"""Schedule harnesses: events with symbolic ticks, kinds and priorities; events scheduling and voiding events."""
from lib.harness import Harness
from lib.pysym.ops import conj, disj, neg, eq, implies

FIRST, LAST, RANDOM, BY_PRIORITY = 0, 1, 2, 3


class Ev:
    def __init__(self, i, at, kind, interval, ptype, prio):
        self.i, self.at, self.kind, self.interval, self.ptype, self.prio = i, at, kind, interval, ptype, prio
        self.sched = None          # tick at which it was scheduled (None = before the run)
        self.order = None          # position in the order of scheduling calls
        self.ticks = []            # reported tick at every execution
        self.handle = None
        self.voided_at = None      # length of the log when voided
        self.void_pending = None
        self.scheduled = False


class SchedRun:
    """Builds and runs a schedule on one rank; shared by the schedule properties."""

    def __init__(self, env, events, parents, stop, voids=None, on_exec=None, use_runner=None):
        self.env, self.events, self.parents, self.stop = env, events, parents, stop
        self.voids = voids or {}
        self.log = []
        self.norder = 0
        self.on_exec = on_exec
        S = env.r4.schedule
        env.r4.random.default_rng = env.rng()
        self.S = S
        self.runner = use_runner or S.init_schedule_runner(env.comm)
        self.first_exec = set()

    def schedule(self, e):
        S, r = self.S, self.runner
        pt = S.PriorityType(e.ptype)
        kw = dict(priority_type=pt)
        if e.ptype == BY_PRIORITY:
            kw['priority'] = e.prio
        e.sched = self.runner.tick() if self.running else None
        e.order = self.norder
        self.norder += 1
        e.scheduled = True
        cb = S.create_arg_evt(self.fire, e)
        if e.kind == 'r':
            e.handle = r.schedule_repeating_event(e.at, e.interval, cb, **kw)
        else:
            e.handle = r.schedule_event(e.at, cb, **kw)

    def fire(self, e):
        tick = self.runner.tick()
        if self.on_exec:
            self.on_exec(self, e, tick)
        e.ticks.append(tick)
        self.log.append((e.i, tick))
        if e.i not in self.first_exec:
            self.first_exec.add(e.i)
            for j, p in enumerate(self.parents):
                if p == e.i:
                    self.schedule(self.events[j])
            for t in self.voids.get(e.i, ()):
                self.void(t)

    def void(self, t):
        x = self.events[t]
        if x.handle is not None and x.voided_at is None:
            x.voided_at = len(self.log)
            x.void_tick = self.runner.tick() if self.running else None
            x.handle.void()

    def go(self):
        self.running = False
        for j, p in enumerate(self.parents):
            if p == -1:
                self.schedule(self.events[j])
        for t in self.voids.get(-1, ()):
            self.void(t)
        self.runner.schedule_stop(self.stop)
        self.running = True
        self.runner.execute()
        return self.log


def occurrence_spec(e, stop):
    """Conditions: e executed exactly at its occurrences up to the stop tick."""
    n = len(e.ticks)
    valid = (e.at >= 0) if e.sched is None else (e.at >= e.sched)
    if e.kind == 'o':
        if n == 0:
            return {'exactly-once': disj([neg(valid), e.at > stop])}
        return {'exactly-once': n == 1, 'at-its-tick': conj([valid, e.at <= stop] + [eq(t, e.at) for t in e.ticks])}
    if n == 0:
        return {'repeats': disj([neg(valid), e.at > stop])}
    ok, t = [valid], e.at
    for x in e.ticks:
        ok.append(eq(x, t))
        ok.append(t <= stop)
        t = t + e.interval
    ok.append(t > stop)
    return {'repeats': conj(ok)}
