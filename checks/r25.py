"""R25: random state and parameters are reproducible."""
import copy
import json
import os
import types
import numpy as np
from lib.harness import Harness
from lib.runner import Job
from lib.pysym import ops

FUNCTIONS = ['random.init', 'checkpoint.Checkpoint.__init__/save_random/restore_random', 'parameters.init_params', 'parameters.create_args_parser',
             'util.find_free_filename']
BOUNDS = {
    'quick': ['sequences of 4 operations among seeding with a symbolic seed, seeding from the clock (symbolic time), drawing, saving into and restoring from 2 checkpoints (each passed through a copy, as when pickled), then 2 draws compared',
              'one parameter initialization with 4 names and two successive ones with 2 names (one of them random.seed), each present or not in the file and in the override; symbolic integer, absent and null values; a dump file that may exist already'],
    'thorough': ['sequences of 6 operations', 'one initialization with 5 names, two with 3']}
ASSUMPTIONS = ['the n-th draw of a generator is a function of its seed and n (uninterpreted), and its state property is a snapshot',
               'yaml and json parse and print plain mappings faithfully (stand-ins in the symbolic run; sampled paths are re-run with the real libraries)']
OUTSIDE = ['the statistical quality of the generator', 'the torch generator after a restore', 'parameter files that are not a mapping']
LABELS = ['seed-reported', 'draws', 'torch-seed', 'params', 'seed-applied', 'params-global', 'dump', 'dump-no-overwrite', 'restore-value']


# -- symbolic generator ------------------------------------------------
class SymGen:
    """numpy.random.Generator whose draws are D(seed, n)."""

    class Bits:
        def __init__(self, seed):
            self._s = [seed, 0]

        @property
        def state(self):
            return {'bit_generator': 'PCG64', 'state': {'state': self._s[0], 'inc': self._s[1]}, 'has_uint32': 0, 'uinteger': 0}

        @state.setter
        def state(self, d):
            self._s = [d['state']['state'], d['state']['inc']]

    def __init__(self, bits):
        self.bit_generator = bits

    def draw(self):
        import z3
        from lib.pysym.proxies import SymInt
        D = z3.Function('D', z3.IntSort(), z3.IntSort(), z3.IntSort())
        s, n = self.bit_generator._s
        self.bit_generator._s[1] += 1
        return SymInt(D(s.z if hasattr(s, 'z') else z3.IntVal(int(s)), z3.IntVal(n)))


def draw(env, g):
    return g.draw() if env.symbolic else int(g.integers(0, 2 ** 40))


def fresh(env, seed):
    if env.symbolic:
        return SymGen(SymGen.Bits(seed))
    return np.random.default_rng(seed)


class Docs:
    """Stands for yaml / json text of a mapping."""

    def __init__(self):
        self.docs = []

    def add(self, d):
        self.docs.append(d)
        return 'doc:%d' % (len(self.docs) - 1)

    def parse(self, s):
        s = s if isinstance(s, str) else s.read()
        s = s.strip()
        if s.startswith('doc:'):
            return copy.copy(self.docs[int(s[4:])])
        return json.loads(s) if s else None


def stub_modules(env, docs):
    from lib import npstub, torchstub
    n = npstub.NumpyProxy()
    n.random = types.SimpleNamespace(Generator=SymGen, default_rng=lambda s=None: SymGen(SymGen.Bits(s)), PCG64=SymGen.Bits)
    y = types.ModuleType('yaml')
    y.SafeLoader = y.Loader = y.FullLoader = y.CSafeLoader = y.SafeDumper = y.Dumper = None
    y.load = lambda s, Loader=None: docs.parse(s)
    y.safe_load = y.full_load = lambda s: docs.parse(s)

    def dump(d, stream=None, **kw):
        t = docs.add(copy.copy(d))
        if stream is None:
            return t
        stream.write(t)
    y.dump = y.safe_dump = dump
    j = types.ModuleType('json')
    j.loads = lambda s: docs.parse(s)
    j.load = lambda f: docs.parse(f)
    j.JSONDecodeError = json.JSONDecodeError
    tm = types.ModuleType('time')
    tm.time = lambda: clock(env)
    t = types.ModuleType('torch')
    t.cur = None

    def seed(s):
        t.cur = s
    t.manual_seed = seed
    t.initial_seed = lambda: t.cur
    t.float64 = t.float32 = t.long = t.int64 = 'num'
    st = {'numpy': n, 'yaml': y, 'json': j, 'time': tm, 'torch': t}
    return st


def clock(env):
    if not hasattr(env, 'nclock'):
        env.nclock = 0
    env.nclock += 1
    return env.tick(f'time{env.nclock}', 0, 2 ** 31)


class RandomState(Harness):
    name = 'random-state'
    modules = ('core', 'random', 'checkpoint')
    nops = 4

    def stubs(self, env):
        return stub_modules(env, Docs())

    def run(self, env):
        R, C = env.r4.random, env.r4.checkpoint
        if env.symbolic:
            import z3
            torch = env.r4.random.torch
            real_init = R.init
        else:
            import torch
            import time as _t
            real_init = R.init
        mirror = fresh(env, R.seed)
        seed = R.seed
        ck = [C.Checkpoint(), C.Checkpoint()]
        saved = [None, None]
        outs, hist = [], []

        def compare(n=2):
            env.check(ops.eq(R.seed, seed), 'seed-reported', lambda: f'{hist}: seed {R.seed}, expected {seed}')
            for _ in range(n):
                a, b = draw(env, R.default_rng), draw(env, mirror)
                env.check(ops.eq(a, b), 'draws', lambda: f'{hist}: draw {a}, expected {b}')
        for k in range(self.nops):
            op = env.choice(f'op{k}', 7)
            if op == 0:
                s = env.int(f'seed{k}', 0, 2 ** 32 - 1)
                hist.append(('init', s))
                real_init(s)
                mirror, seed = fresh(env, s), s
                env.check(ops.eq(torch.initial_seed(), s), 'torch-seed', lambda: f'{hist}: torch seed {torch.initial_seed()}')
            elif op == 1:
                hist.append(('init from the clock',))
                if env.symbolic:
                    real_init()
                else:
                    old = R.time
                    R.time = types.SimpleNamespace(time=lambda: clock(env))
                    try:
                        real_init()
                    finally:
                        R.time = old
                seed = R.seed
                if env.symbolic and not isinstance(seed, int):
                    # the reported seed is the one in use: compared through the draws below
                    pass
                mirror = fresh(env, seed)
            elif op == 2:
                hist.append(('draw',))
                a, b = draw(env, R.default_rng), draw(env, mirror)
                env.check(ops.eq(a, b), 'draws', lambda: f'{hist}: draw {a}, expected {b}')
            elif op in (3, 4):
                i = op - 3
                hist.append(('save', i))
                ck[i].save_random()
                saved[i] = (seed, copy.deepcopy(mirror.bit_generator.state))
                ck[i] = copy.deepcopy(ck[i])
            else:
                i = op - 5
                if saved[i] is None:
                    continue
                hist.append(('restore', i))
                ck[i].restore_random()
                seed = saved[i][0]
                mirror = fresh(env, 0)
                mirror.bit_generator.state = copy.deepcopy(saved[i][1])
            outs.append(op)
        compare()
        return outs


NAMES = ['a', 'random.seed', 'b.c', 'count', 'z']


class Params(Harness):
    name = 'parameters'
    modules = ('core', 'random', 'parameters', 'util')
    nnames = 4
    rounds = 2

    def stubs(self, env):
        env.docs = Docs()
        return stub_modules(env, env.docs)

    def doc(self, env, d, kind):
        if env.symbolic:
            return env.docs.add(d)
        if kind == 'json':
            return json.dumps(d)
        import yaml
        return yaml.dump(d)

    def read(self, env, path):
        if env.symbolic:
            return env.docs.parse(open(path).read())
        import yaml
        return yaml.load(open(path), Loader=yaml.SafeLoader)

    def value(self, env, n, name):
        if name == 'random.seed':
            return env.int(f'{n}.v', 0, 1000)
        # a number, or one of the values that count as false
        if name == 'a' and env.choice(f'{n}.null', 2):
            return None
        return env.int(f'{n}.v', -5, 1000)

    def run(self, env):
        P, R = env.r4.parameters, env.r4.random
        outs = []
        dumpf = os.path.join(env.scratch, 'dump.yaml')
        made = {}
        for r in range(self.rounds):
            names = NAMES[:self.nnames]
            fd, ov = {}, {}
            for n in names:
                if env.choice(f'f{r}.{n}', 2):
                    fd[n] = self.value(env, f'f{r}.{n}', n)
                if env.choice(f'o{r}.{n}', 2):
                    ov[n] = self.value(env, f'o{r}.{n}', n)
            exp = dict(fd)
            exp.update(ov)
            fname = os.path.join(env.scratch, f'params{r}.yaml')
            with open(fname, 'w') as f:
                f.write(self.doc(env, fd, 'yaml'))
            s = '' if not ov and r == 0 else self.doc(env, ov, 'json')
            dump = None
            if r == 0 and env.choice('dump', 2) or r == 1 and made:
                dump = dumpf
                if r == 0 and env.choice('existing', 2):
                    with open(dumpf, 'w') as f:
                        f.write('old')
                    made[dumpf] = 'old'
            R.init(77)
            draw(env, R.default_rng)
            args = P.create_args_parser().parse_args([fname, s] if s else [fname])
            got = P.init_params(args.parameters_file, s if not s else args.parameters, dump)
            what = lambda: f'round {r} file {fd} override {ov}: {got}, expected {exp}'
            same = lambda g: isinstance(g, dict) and set(g) == set(exp) and all((g[k] is None) == (exp[k] is None) for k in exp) and \
                ops.conj([ops.eq(g[k], exp[k]) for k in exp if exp[k] is not None])
            env.check(same(got), 'params', what)
            env.check(same(P.params), 'params-global', lambda: f'{what()} module: {P.params}')
            want = exp.get('random.seed', 77)
            env.check(ops.eq(R.seed, want), 'seed-applied', lambda: f'{what()}: seed {R.seed}')
            m = fresh(env, want)
            if 'random.seed' not in exp:
                draw(env, m)
            a, b = draw(env, R.default_rng), draw(env, m)
            env.check(ops.eq(a, b), 'seed-applied', lambda: f'{what()}: draw {a}, expected {b}')
            if dump:
                files = sorted(f for f in os.listdir(env.scratch) if f.startswith('dump'))
                new = [f for f in files if os.path.join(env.scratch, f) not in made]
                env.check(len(new) == 1 and all(open(f).read() == t for f, t in made.items()), 'dump-no-overwrite', lambda: f'{what()}: files {files}, before {list(made)}')
                if len(new) == 1:
                    p = os.path.join(env.scratch, new[0])
                    d = self.read(env, p)
                    env.check(same(d), 'dump', lambda: f'{what()}: dumped {d}')
                    made[p] = open(p).read()
            outs.append([sorted(got)])
        return outs


class Values(Harness):
    name = 'checkpoint-values'
    modules = ('core', 'checkpoint')
    nops = 3

    def stubs(self, env):
        return stub_modules(env, Docs())

    def run(self, env):
        C = env.r4.checkpoint
        ck = [C.Checkpoint(), C.Checkpoint()]
        model = [{}, {}]
        outs = []
        for k in range(self.nops):
            i, key = env.choice(f'c{k}', 2), ['x', 'y'][env.choice(f'k{k}', 2)]
            v = env.int(f'v{k}', -100, 100)
            ck[i].save(key, v)
            model[i][key] = v
            outs.append((i, key))
        for i in range(2):
            c = copy.deepcopy(ck[i])
            for key, v in model[i].items():
                w, extra = env.int('w'), []
                got = c.restore(key, lambda x, *a: (extra.append(a), x)[1], w, i)
                env.check(ops.conj([ops.eq(got, v), len(extra) == 1 and len(extra[0]) == 2, ops.eq(extra[0][0], w) if extra and extra[0] else False]),
                          'restore-value', lambda: f'{model}: {i} {key} {got}')
        return outs


def jobs(tier):
    q = tier == 'quick'
    out = []
    for a in range(7):
        if a in (5, 6):
            continue
        for b in range(7):
            out.append(Job(RandomState, dict(nops=4 if q else 6), pin={'op0': a, 'op1': b}, traces=1))
    for n, r in ([(4, 1), (2, 2)] if q else [(5, 1), (2, 2), (3, 2)]):
        for i in range(2 ** 3):
            out.append(Job(Params, dict(nnames=n, rounds=r), pin={'f0.a': i & 1, 'o0.random.seed': i >> 1 & 1, 'dump': i >> 2}, traces=1))
    out.append(Job(Values, dict(nops=3 if q else 4), traces=2))
    return out
