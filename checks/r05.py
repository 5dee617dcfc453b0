"""R05: a restored schedule continues exactly as the saved one."""
import copy
from lib.harness import Harness
from lib.runner import Job
from lib.pysym.ops import conj, disj, neg, eq, implies
from checks.sched_common import Ev, occurrence_spec, RANDOM, FIRST, LAST, BY_PRIORITY
from checks.r02 import must_precede

FUNCTIONS = ['checkpoint.Checkpoint.save_schedule', 'checkpoint.Checkpoint.restore_schedule', 'checkpoint.Checkpoint._schedule_evt',
             'checkpoint.Checkpoint._to_evt_data', 'schedule.*']
BOUNDS = {
    'quick': ['<= 3 user events (one-time or repeating, any priority kind) with any ticks that are multiples of 1/8 in [0, 2], intervals in [1, 2] (one event: in [1/4, 1]; two events: ticks that are multiples of 1/1024); '
              'any checkpoint tick and any stop tick; checkpoint before the run, by the last event of a tick, or after execute() returned; one event voided before or after the checkpoint, one scheduled after the checkpoint; '
              'stop restored or newly scheduled; events restored in one call or by tag, or ignored; up to 2 end events'],
    'thorough': ['<= 4 user events']}
ASSUMPTIONS = ['dyadic ticks (exact in double arithmetic)', 'random generator stub: any permutation / any index in range; the same draws after the checkpoint in both runs (R25)',
               'checkpoints are serialized by a deep copy in the symbolic run and by dill on the real code', 'mpi4py communicator of size 1 stub',
               'the saving event is a one-time event with priority LAST that is the last one of its tick']
OUTSIDE = ['checkpoints taken by an event that is followed by other events of the same tick']
LABELS = ['others-exact', 'order-within-tick', 'same-as-original', 'voided-stays-voided', 'end-events', 'ignored-not-run']


class Ckp(Harness):
    name = 'schedule-checkpoint'
    modules = ('schedule', 'checkpoint')
    max_collectives = 60
    hi = 2
    ivlo, den = 1, 8
    ats = None
    save = 'event'       # 'before' | 'event' | 'after'
    void = None          # [event, 'pre'|'post']
    restore_stop = True
    tags = None          # per event: 'a' or None
    ignore = None
    nend = 1
    parent = None        # event that is scheduled by event 0 (possibly after the restore)
    late = None          # event that is scheduled after the checkpoint, and again after the restore

    def run(self, env):
        r4 = env.r4
        S, C = r4.schedule, r4.checkpoint
        n = len(self.types)
        evs = []
        for i in range(n):
            pt = self.types[i]
            if pt == '?':
                pt = env.choice(f'type{i}', 4)
            k = self.kinds[i]
            if k == '?':
                k = 'or'[env.choice(f'kind{i}', 2)]
            at = self.ats[i] if self.ats else env.tick(f'at{i}', 0, self.hi, self.den)
            evs.append(Ev(i, at, k, (env.tick(f'iv{i}', self.ivlo, self.hi, self.den) if not self.ats else 1) if k == 'r' else None, pt,
                          env.real(f'prio{i}') if pt == BY_PRIORITY else None))
        stop = env.tick('stop', 0, self.hi)
        T = env.tick('save', 0, self.hi) if self.save != 'before' else None
        st = {'runner': None, 'log': [], 'ends': [], 'running': False, 'phase': 0}
        conds = []
        norder = [0]

        def order():
            norder[0] += 1
            return norder[0]

        def schedule(e):
            runner = st['runner']
            e.sched = runner.tick() if st['running'] or e.i == self.late else None
            e.order = order()
            e.scheduled = True
            md = {'idx': e.i}
            if self.tags and self.tags[e.i]:
                md['tag'] = self.tags[e.i]
            kw = dict(priority_type=S.PriorityType(e.ptype), metadata=md)
            if e.ptype == BY_PRIORITY:
                kw['priority'] = e.prio
            cb = S.create_arg_evt(fire, e)
            if e.kind == 'r':
                e.handle = runner.schedule_repeating_event(e.at, e.interval, cb, **kw)
            else:
                e.handle = runner.schedule_event(e.at, cb, **kw)

        def fire(e):
            tick = st['runner'].tick()
            if st['phase'] == 1:
                for f in evs:
                    if f is e or not f.scheduled or f.voided_at is not None or f.kind != 'o' or f.ticks or self.ignore == f.i:
                        continue
                    mp = must_precede(f, e)
                    if mp is not False:
                        pend = conj([eq(f.at, tick), f.sched <= f.at if f.sched is not None else f.at >= 0])
                        conds.append(implies(pend, neg(mp)))
            e.ticks.append(tick)
            st['log'].append((e.i, tick))
            if e.i == 0 and self.parent is not None and not evs[self.parent].scheduled:
                schedule(evs[self.parent])

        def do_void(e):
            if e.handle is not None:
                e.voided_at = len(st['log'])
                e.handle.void()

        def end(k):
            st['ends'].append((k, len(st['log'])))

        saved = {}

        def snapshot():
            ckp = C.Checkpoint()
            if self.void and self.void[1] == 'pre':
                do_void(evs[self.void[0]])
            ckp.save_schedule()
            saved['ckp'] = dump(env, ckp)
            saved['ticks'] = [list(e.ticks) for e in evs]
            saved['sched'] = [(e.scheduled, e.sched, e.order) for e in evs]
            saved['norder'] = norder[0]
            saved['log'] = len(st['log'])
            r4.random.default_rng = env.rng('post')
            if self.void and self.void[1] == 'post':
                do_void(evs[self.void[0]])
            if self.late is not None:
                schedule(evs[self.late])

        # original run
        r4.random.default_rng = env.rng('pre')
        runner = st['runner'] = S.init_schedule_runner(env.comm)
        for i, e in enumerate(evs):
            if i not in (self.parent, self.late):
                schedule(e)
        for k in range(self.nend):
            runner.schedule_end_event(S.create_arg_evt(end, k), metadata={'end': k})
        if self.save == 'event':
            runner.schedule_event(T, snapshot, priority_type=S.PriorityType.LAST)
            runner.schedule_stop(stop)
            env.assume(T < stop if self.restore_stop else T <= stop)
            st['running'] = True
            runner.execute()
        elif self.save == 'before':
            runner.schedule_stop(stop)
            snapshot()
            st['running'] = True
            runner.execute()
        else:
            # run up to T, save afterwards
            runner.schedule_stop(T)
            env.assume(T <= stop)
            if self.restore_stop:
                runner.schedule_stop(stop)
            st['running'] = True
            runner.execute()
            snapshot()
        logA, endsA = st['log'], st['ends']
        for i, t in logA[saved['log']:]:
            if self.save == 'event':
                env.assume(t > T)
        # restored run
        restored_void = evs[self.void[0]] if self.void else None
        pre_void = self.void and self.void[1] == 'pre'
        for e, tk, (sc, sd, o) in zip(evs, saved['ticks'], saved['sched']):
            e.ticks, e.scheduled, e.sched, e.order, e.handle = list(tk), sc, sd, o, None
            if not (e is restored_void and pre_void):
                e.voided_at = None
        norder[0] = saved['norder']
        st.update(log=[], ends=[], phase=1, running=False)
        r4.random.default_rng = env.rng('other')
        ckp = load(env, saved['ckp'])
        endc = []

        def creator(md):
            if 'end' in md:
                return S.create_arg_evt(end, md['end'])
            if 'idx' not in md:
                return None
            if md['idx'] == self.ignore:
                return C.IGNORE_EVT
            return S.create_arg_evt(fire, evs[md['idx']])

        def processor(md, h):
            if 'idx' in md:
                evs[md['idx']].handle = h
        r4.random.default_rng = env.rng('post')
        stop2 = stop
        runner = st['runner'] = ckp.restore_schedule(env.comm, creator, processor, restore_stop_at=self.restore_stop)
        if self.tags:
            for tag in sorted({t for t in self.tags if t}):
                ckp.restore_schedule(env.comm, creator, processor, tag=tag, initialize=False, restore_stop_at=self.restore_stop)
        env.check(True if self.save == 'before' else runner.tick() <= stop, 'restored-tick', lambda: runner.tick())
        if not self.restore_stop:
            stop2 = env.tick('stop2', 0, self.hi)
            env.assume(stop2 > T if T is not None else stop2 >= 0)
            runner.schedule_stop(stop2)
        elif self.save == 'after':
            env.assume(stop > T)
        if self.void and self.void[1] == 'post' and evs[self.void[0]].handle is not None:
            do_void(evs[self.void[0]])
        if self.late is not None:
            schedule(evs[self.late])
        st['running'] = True
        runner.execute()
        logB = st['log']
        det = lambda: (f'kinds {[e.kind for e in evs]} types {[e.ptype for e in evs]} at {[e.at for e in evs]} saved at {T} stop {stop} {stop2}: '
                       f'before {logA[:saved["log"]]} original continues {logA[saved["log"]:]} restored continues {logB}')
        for e in evs:
            if not e.scheduled:
                continue
            if self.ignore == e.i:
                env.check(all(i != e.i for i, _ in logB), 'ignored-not-run', det)
            elif self.void and e is restored_void and e.voided_at is not None:
                env.check(all(i != e.i for i, _ in logB), 'voided-stays-voided', det)
            else:
                env.check(conj(list(occurrence_spec(e, stop2).values())), 'others-exact', det)
        env.check(conj(conds), 'order-within-tick', det)
        env.check(conj([a[1] <= b[1] for a, b in zip(logB, logB[1:])]), 'ticks-increase', det)
        if self.save != 'after' and self.restore_stop and self.ignore is None:
            cont = logA[saved['log']:]
            env.check(conj([[i for i, _ in cont] == [i for i, _ in logB]] + [eq(a[1], b[1]) for a, b in zip(cont, logB)]), 'same-as-original', det)
        env.check(st['ends'] == [(k, len(logB)) for k in range(self.nend)], 'end-events', lambda: f'{st["ends"]} {det()}')
        return [logA, logB]


def dump(env, x):
    if env.symbolic:
        return copy.deepcopy(x)
    import dill
    return dill.dumps(x)


def load(env, x):
    if env.symbolic:
        return x
    import dill
    return dill.loads(x)


def jobs(tier):
    out = []
    B, R, F, L = BY_PRIORITY, RANDOM, FIRST, LAST
    for save in ('before', 'event', 'after'):
        for rs in (True, False):
            if rs is False and save == 'before':
                continue
            for kinds in ('o', 'r'):
                out.append(Job(Ckp, dict(types=['?'], kinds=kinds, save=save, restore_stop=rs, nend=2)))
            out.append(Job(Ckp, dict(types=[L, F], kinds='or', save=save, restore_stop=rs)))
            out.append(Job(Ckp, dict(types=[L, B], kinds='oo', save=save, restore_stop=rs)))
            out.append(Job(Ckp, dict(types=[R, B], kinds='oo', save=save, restore_stop=rs)))
        # short intervals and ticks that are close together
        out.append(Job(Ckp, dict(types=[L], kinds='r', save=save, hi=1, ivlo=.25, den=16)))
        out.append(Job(Ckp, dict(types=[L, R], kinds='oo', save=save, hi=1, den=1024)))
    # order within later ticks: concrete ticks, all kinds
    for t in range(4):
        out.append(Job(Ckp, dict(types=[t, '?', '?'], kinds='ooo', ats=[2, 2, 2], save='event', hi=3)))
        out.append(Job(Ckp, dict(types=[t, '?', '?'], kinds='roo', ats=[1, 2, 2], save='event', hi=3)))
        out.append(Job(Ckp, dict(types=[t, '?', '?'], kinds='rro', ats=[1, 1, 2], save='event', hi=2)))
        out.append(Job(Ckp, dict(types=[t, '?'], kinds='ro', ats=[1, 2], save='event', hi=3, parent=1)))
        out.append(Job(Ckp, dict(types=[t, '?', '?'], kinds='oro', ats=[2, 1, 2], save='before', hi=2)))
        # events scheduled after the checkpoint take their place among the restored ones
        out.append(Job(Ckp, dict(types=[t, '?', '?'], kinds='ooo', ats=[2, 2, 2], save='event', hi=3, late=2)))
        out.append(Job(Ckp, dict(types=[t, t, t, t], kinds='oooo', ats=[1, 1, 3, 3], save='event', hi=3, late=3)))
        out.append(Job(Ckp, dict(types=[t, '?', t], kinds='roo', ats=[1, 1, 2], save='event', hi=3, late=2)))
        out.append(Job(Ckp, dict(types=[t, t], kinds='or', ats=[2, 2], save='before', hi=3, late=1)))
    for when in ('pre', 'post'):
        for v in (0, 1):
            for save in ('event', 'before'):
                out.append(Job(Ckp, dict(types=[L, L], kinds='ro', void=[v, when], save=save)))
    for ig in (0, 1):
        out.append(Job(Ckp, dict(types=[L, R], kinds='ro', ignore=ig)))
    for tags in (['a', None], ['a', 'b']):
        out.append(Job(Ckp, dict(types=[L, L], kinds='ro', tags=tags)))
        out.append(Job(Ckp, dict(types=[F, F, F], kinds='ooo', ats=[2, 2, 2], tags=tags + ['a'])))
    out.append(Job(Ckp, dict(types=[L, L], kinds='oo', parent=1)))
    if tier == 'thorough':
        for t in range(4):
            for u in range(4):
                out.append(Job(Ckp, dict(types=[t, u, '?', '?'], kinds='oroo', ats=[2, 1, 2, 2], save='event', hi=3)))
                out.append(Job(Ckp, dict(types=[t, u, '?'], kinds='rrr', ats=[1, 1, 2], save='event', hi=3)))
                out.append(Job(Ckp, dict(types=[t, u], kinds='rr', save='event')))
        for save in ('before', 'event', 'after'):
            out.append(Job(Ckp, dict(types=[L, F, L], kinds='oor', save=save)))
            out.append(Job(Ckp, dict(types=[L, F, B], kinds='ooo', save=save)))
    return out
