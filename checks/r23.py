"""R23: logged data reaches the output completely, in order, reduced over all ranks."""
import csv
import os
from dataclasses import make_dataclass
from lib.harness import Harness
from lib.runner import Job
from lib.pysym import ops

FUNCTIONS = ['logging.ReducingDataLogger', 'logging.DCDataSource', 'logging.create_loggers', 'logging.ReducingDataSet', 'logging.TabularLogger', 'util.find_free_filename']
BOUNDS = {
    'quick': ['reducing data sets: 1 to 3 ranks, 5 steps each a log of symbolic values (sum, min and max columns), a write or both, buffer sizes 1 to 5, internal array sizes 2 and the shipped one; a series of 1001 logs of symbolic values',
              'up to 3 files of the name (and its numbered variants) existing beforehand, with and without a directory part, new directories, two data sets of one name',
              'tabular loggers: 1 to 3 ranks, 4 steps of symbolic rows on symbolic ranks, 0 to 2 rows per step, and writes, delimiters comma, tab and semicolon'],
    'thorough': ['as quick with 7 and 6 steps and a series of 2001 logs']}
ASSUMPTIONS = ['MPI reductions as specified; sums of logged numbers do not overflow or round', 'str() of a number reads back as the number (decimal text of a symbolic number is an opaque token)',
               'the csv module quotes and separates as documented']
OUTSIDE = ['ranks that log different numbers of ticks', 'files removed or created by others while logging', 'column names that contain the delimiter in a reducing data set']
LABELS = ['header', 'rows', 'row-values', 'reduced', 'tabular-rows', 'existing-file', 'held-back']


def stubs(env):
    from lib import npstub
    return {'numpy': npstub.NumpyProxy()}


def num(env, s):
    """Text of a cell -> number."""
    if env.symbolic:
        from lib.pysym import proxies
        v = proxies.untext(s)
        if v is not None:
            return v
    try:
        return float(s)
    except ValueError:
        return s


def table(path, delim):
    with open(path, newline='') as f:
        return list(csv.reader(f, delimiter=delim))


def smin(env, xs):
    r = xs[0]
    for x in xs[1:]:
        r = ops.ite(x < r, x, r)
    return r


def smax(env, xs):
    r = xs[0]
    for x in xs[1:]:
        r = ops.ite(x > r, x, r)
    return r


class Files:
    """Existing files and where the output has to go."""

    def prepare_files(self, env):
        self.base = env.scratch
        sub = env.choice('dir', 4) if self.dirs else 0
        d = [env.scratch, os.path.join(env.scratch, 'new', 'deep'), os.path.join(env.scratch, 'old'), env.scratch][sub]
        if sub == 2:
            os.makedirs(d, exist_ok=True)
        old = {}
        if sub != 1:
            for i in range(self.nold):
                if env.choice(f'old{i}', 2):
                    p = os.path.join(d, 'out.csv' if i == 0 else f'out_{i}.csv')
                    if env.rank == 0:
                        with open(p, 'w') as f:
                            f.write(f'keep {i}')
                    old[p] = f'keep {i}'
        env.comm.Barrier()
        if sub == 3:
            # no directory part: the working directory
            os.chdir(d)
            return 'out.csv', d, old
        return os.path.join(d, 'out.csv'), d, old

    def outputs(self, env, d, old):
        fs = sorted(os.path.join(d, f) for f in os.listdir(d)) if os.path.isdir(d) else []
        env.check(all(p in fs and open(p).read() == t for p, t in old.items()), 'existing-file', lambda: f'existing {old}, now {fs}')
        return [p for p in fs if p not in old and os.path.isfile(p)]


class Reducing(Files, Harness):
    name = 'reducing-data-set'
    modules = ('core', 'util', 'logging')
    steps = 5
    arr = None
    dirs = False
    nold = 0
    series = 0
    buf = 5
    delim = ','

    def stubs(self, env):
        return stubs(env)

    def run(self, env):
        L, comm = env.r4.logging, env.comm
        if env.symbolic:
            import sys
            MPI = L.MPI
        else:
            from mpi4py import MPI
        path, d, old = self.prepare_files(env)
        if self.arr:
            L.ReducingDataLogger._ARRAY_SIZE = self.arr
        D = make_dataclass('D', [('a', float), ('b', int), ('c', float), ('skip', int)])
        row = D(0, 0, 0, 0)
        logs = L.create_loggers(row, MPI.SUM, env.rank, {'a': None, 'b': 'bee'})
        logs += L.create_loggers(row, MPI.MIN, env.rank, {'b': 'low'})
        logs += L.create_loggers(row, MPI.MAX, env.rank, names={'c': 'high'})
        heads = ['tick', 'a', 'bee', 'low', 'high']
        buf = 1 + env.choice('buf', self.buf) if self.buf > 1 else 1000
        try:
            ds = L.ReducingDataSet(logs, comm, path, self.delim, buf)
        finally:
            if not env.symbolic and self.arr:
                L.ReducingDataLogger._ARRAY_SIZE = 500
        if self.arr:
            L.ReducingDataLogger._ARRAY_SIZE = self.arr
        vals = []
        since, wrote = 0, 0
        n = self.series or self.steps
        t = 0
        for k in range(n):
            op = env.choice(f'op{k}', 3) if not self.series else 0
            if op in (0, 2):
                t = t + (1 if self.series else env.tick(f't{k}', 0, 4))
                vs = [[env.int(f'v{k}.{r}.{i}', -1000, 1000) for i in range(3)] for r in range(env.size)] if not self.series or k % 97 == 0 else \
                    [[k * 3 + r + i for i in range(3)] for r in range(env.size)]
                row.a, row.b, row.c = vs[env.rank]
                ds.log(t)
                row.a = row.b = row.c = -7
                vals.append((t, vs))
                since += 1
                if since == buf:
                    wrote, since = len(vals), 0
            if op in (1, 2):
                ds.write()
                wrote, since = len(vals), 0
            env.comm.Barrier()
            if env.rank == 0 and not self.series and k == n - 1:
                new = self.outputs(env, d, old)
                m = len(table(new[0], self.delim)) - 1 if len(new) == 1 else -1
                env.check(m == wrote, 'held-back', lambda: f'buffer {buf}: {m} rows in the file after {len(vals)} logs, last write after {wrote}')
        ds.close()
        env.comm.Barrier()
        if not env.symbolic and self.arr:
            L.ReducingDataLogger._ARRAY_SIZE = 500
        if env.rank != 0:
            return []
        new = self.outputs(env, d, old)
        if not env.check(len(new) == 1, 'existing-file', lambda: f'new files {new}'):
            return []
        rows = table(new[0], self.delim)
        env.check(rows[:1] == [heads], 'header', lambda: f'{rows[:1]}')
        rows = rows[1:]
        if not env.check(len(rows) == len(vals) and all(len(r) == 5 for r in rows), 'rows', lambda: f'buffer {buf}: {len(rows)} rows {rows[:9]} for {len(vals)} logs'):
            return []
        outs = []
        for i, (t, vs) in enumerate(vals):
            got = [num(env, x) for x in rows[i]]
            cols = list(zip(*vs))
            exp = [t, sum(cols[0][1:], cols[0][0]), sum(cols[1][1:], cols[1][0]), smin(env, cols[1]), smax(env, cols[2])]
            env.check(ops.eq(got[0], exp[0]), 'row-values', lambda: f'row {i}: {got}, expected {exp}')
            env.check(ops.conj([ops.eq(a, b) for a, b in zip(got[1:], exp[1:])]), 'reduced', lambda: f'row {i}: {got}, expected {exp} from {vs}')
            if not self.series:
                outs.append(got)
        return outs


class Two(Files, Harness):
    """Two outputs of one name in one run."""
    name = 'two-data-sets'
    modules = ('core', 'util', 'logging')
    nold = 1
    dirs = False

    def stubs(self, env):
        return stubs(env)

    def run(self, env):
        L = env.r4.logging
        if env.symbolic:
            MPI = L.MPI
        else:
            from mpi4py import MPI
        path, d, old = self.prepare_files(env)
        D = make_dataclass('D', [('a', float)])
        sets = []
        for i in range(2):
            kind = env.choice(f'kind{i}', 2)
            row = D(0)
            if kind == 0:
                sets.append((kind, row, L.ReducingDataSet(L.create_loggers(row, MPI.SUM, env.rank), env.comm, path, ',', 10)))
            else:
                sets.append((kind, row, L.TabularLogger(env.comm, path, ['tick', 'a'])))
            env.comm.Barrier()
        exp = [[], []]
        for k in range(3):
            i = env.choice(f'which{k}', 2)
            v = [env.int(f'v{k}.{r}', -99, 99) for r in range(env.size)]
            kind, row, s = sets[i]
            if kind == 0:
                row.a = v[env.rank]
                s.log(k)
                exp[i].append((k, sum(v)))
            else:
                s.log_row(k, v[env.rank])
                exp[i] += [(k, x) for x in v]
        for kind, row, s in sets:
            s.close()
        env.comm.Barrier()
        if env.rank != 0:
            return []
        new = self.outputs(env, d, old)
        if not env.check(len(new) == 2, 'existing-file', lambda: f'new files {new}, existing {old}'):
            return []
        ts = [[[num(env, x) for x in r] for r in table(p, ',')[1:]] for p in new]
        first = len(old)
        # numbering: the first takes the first free name
        outs = []
        for i in range(2):
            want = exp[i]
            if sets[i][0] == 1 and env.size > 1:
                want = [w for r in range(env.size) for w in [exp[i][j] for j in range(r, len(exp[i]), env.size)]]
            env.check(len(ts[i]) == len(want) and ops.conj([ops.eq(a, b) for g, w in zip(ts[i], want) for a, b in zip(g, w)]), 'row-values',
                      lambda: f'{new[i]}: {ts[i]}, expected {want}')
            outs.append(ts[i])
        return outs


class Tabular(Files, Harness):
    name = 'tabular-logger'
    modules = ('core', 'util', 'logging')
    steps = 4
    dirs = False
    nold = 0
    delims = ',\t;'

    def stubs(self, env):
        return stubs(env)

    def run(self, env):
        L = env.r4.logging
        path, d, old = self.prepare_files(env)
        delim = self.delims[env.choice('delim', len(self.delims))]
        heads = ['tick', 'na,me', 'x']
        log = L.TabularLogger(env.comm, path, heads, delim)
        pend = [[] for _ in range(env.size)]
        blocks = []
        hist = []
        for k in range(self.steps):
            op = env.choice(f'op{k}', 2 + env.size)
            if op < env.size:
                row = (k, 'a"%s b' % delim, env.int(f'v{k}', -1000, 1000))
                if env.rank == op:
                    log.log_row(*row)
                pend[op].append(row)
            elif op == env.size:
                log.write()
                blocks.append(pend)
                pend = [[] for _ in range(env.size)]
            else:
                for r in range(env.size):
                    row = (k, r, env.int(f'v{k}.{r}', -1000, 1000))
                    if env.rank == r:
                        log.log_row(*row)
                    pend[r].append(row)
            hist.append(op)
        log.close()
        blocks.append(pend)
        env.comm.Barrier()
        if env.rank != 0:
            return []
        new = self.outputs(env, d, old)
        if not env.check(len(new) == 1, 'existing-file', lambda: f'new files {new}'):
            return []
        rows = table(new[0], delim)
        env.check(rows[:1] == [heads], 'header', lambda: f'{rows[:1]}')
        got = [[num(env, x) for x in r] for r in rows[1:]]
        # per write one block: all ranks' rows, each rank's rows in order
        outs = []
        pos = 0
        for b in blocks:
            n = sum(map(len, b))
            blk = got[pos:pos + n]
            pos += n
            rest = [list(x) for x in b]
            good = len(blk) == n
            for g in blk:
                # rows are identified by their step (and rank): the first two cells are concrete
                for x in rest:
                    if x and len(g) == 3 and g[0] == x[0][0] and (g[1] == x[0][1]):
                        env.check(ops.eq(g[2], x[0][2]), 'tabular-rows', lambda: f'{hist}: {g}, expected {x[0]}')
                        x.pop(0)
                        break
                else:
                    good = False
            env.check(good and not any(rest), 'tabular-rows', lambda: f'{hist}: file {got}, expected blocks {blocks}')
            outs.append(blk)
        env.check(pos == len(got), 'tabular-rows', lambda: f'{hist}: {len(got)} rows, {pos} expected')
        return outs


class H1(Reducing):
    ranks = 1


class H2(Reducing):
    ranks = 2


class H3(Reducing):
    ranks = 3


class T1(Tabular):
    ranks = 1


class T2(Tabular):
    ranks = 2


class T3(Tabular):
    ranks = 3


class Two2(Two):
    ranks = 2


def jobs(tier):
    q = tier == 'quick'
    out = []
    st = 5 if q else 7
    for b in range(5):
        for arr in ([2] if q else [1, 2, 3]):
            out.append(Job(H2, dict(arr=arr, steps=st), pin={'buf': b}, traces=2))
    out.append(Job(H1, dict(steps=4), traces=2))
    out.append(Job(H3, dict(steps=3, buf=2, arr=1), traces=2))
    out.append(Job(H2, dict(series=1001 if q else 2001, buf=1), traces=1))
    for d in range(4):
        for cls in (H2, T2):
            p = dict(buf=1, steps=1) if cls is H2 else dict(steps=1, delims=',')
            out.append(Job(cls, dict(dirs=True, nold=3, **p), pin={'dir': d}, traces=1))
    for dl in range(3):
        out.append(Job(T2, dict(steps=4 if q else 6), pin={'delim': dl}, traces=1))
        out.append(Job(H2, dict(steps=2, buf=2, delim=',\t;'[dl]), traces=1))
    out.append(Job(T1, dict(steps=4, delims=','), traces=1))
    out.append(Job(T3, dict(steps=3, delims=','), traces=1))
    out.append(Job(Two2, {}, traces=2))
    return out
