"""Symbolic execution of a Harness (solver interpreter)."""
import itertools
import time
import traceback
import z3
from .harness import BaseEnv, AssumptionFailed
from .pysym import engine as E
from .pysym.engine import Engine, PathAbort, Inconclusive, Nondeterminism
from .pysym import mpisim, loader, proxies
from .pysym.proxies import SymInt, SymReal, SymBool


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, eng, comm, rank, size, pin):
        self.eng, self.comm, self.rank, self.size, self.pin = eng, comm, rank, size, pin
        self.r4 = None
        self._scratch = None

    @property
    def scratch(self):
        """An empty directory of this path."""
        if self._scratch is None:
            import os, shutil
            from . import realbuild
            p = os.path.join(realbuild.work(), f'w{os.getpid()}')
            if self.rank == 0 or not self.shared.get('scratch'):
                shutil.rmtree(p, ignore_errors=True)
                os.makedirs(p)
                self.shared['scratch'] = p
            self._scratch = p
        return self._scratch

    def choice_range(self, name, lo, hi):
        if lo == hi:
            return lo
        if name in self.pin:
            return self.pin[name]
        v = self.eng.var(name, z3.Int, lambda v: z3.And(v >= lo, v <= hi))
        return self.eng.concretize(v)

    def int(self, name, lo=None, hi=None):
        if name in self.pin:
            return self.pin[name]
        c = [] if lo is None else [lambda v: v >= lo]
        if hi is not None:
            c.append(lambda v: v <= hi)
        return SymInt(self.eng.var(name, z3.Int, (lambda v: z3.And(*[f(v) for f in c])) if c else None))

    def tick(self, name, lo, hi, den=8):
        if name in self.pin:
            return self.pin[name] / den
        v = self.eng.var(name, z3.Int, lambda v: z3.And(v >= int(lo * den), v <= int(hi * den)))
        return SymReal(z3.ToReal(v) / den)

    def real(self, name, lo=None, hi=None):
        if name in self.pin:
            return self.pin[name]
        c = [] if lo is None else [lambda v: v >= lo]
        if hi is not None:
            c.append(lambda v: v < hi)
        return SymReal(self.eng.var(name, z3.Real, (lambda v: z3.And(*[f(v) for f in c])) if c else None))

    def bool(self, name):
        if name in self.pin:
            return self.pin[name]
        return SymBool(self.eng.var(name, z3.Bool))

    @property
    def replaying(self):
        return self.eng.replaying

    def assume(self, c):
        self.eng.assume(c)

    def check(self, cond, label, detail=None, known=None):
        return self.eng.check(cond, label, detail, known)

    def fail(self, label, detail=None):
        return self.eng.fail(label, detail)


def norm(x, model):
    """Observation -> JSON-able concrete data under a model (identity in the replay)."""
    if isinstance(x, proxies.Sym):
        return E.to_py(model.eval(x.z, model_completion=True))
    import numpy as np
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return [norm(i, model) for i in x]
    if isinstance(x, (set, frozenset)):
        return sorted((norm(i, model) for i in x), key=repr)
    if isinstance(x, dict):
        return {str(k): norm(v, model) for k, v in x.items()}
    if isinstance(x, (bool, int, float, str)) or x is None:
        return x
    if hasattr(x, 'item'):
        return x.item()
    return repr(x)


def run(h, deadline=None, max_paths=None, want_traces=3, seed=1):
    """Explores harness h; returns a result dict."""
    eng = Engine()
    world = mpisim.World(h.ranks)
    world.max_collectives = h.max_collectives
    traces = []
    state = {}

    def body():
        envs = []
        shared = {}
        state['outs'] = None
        for r in range(h.ranks):
            comm = world.comm(r)
            env = SymEnv(eng, comm, r, h.ranks, h.pin)
            st = loader.default_stubs(comm)
            st.update(h.stubs(env) or {})
            env.shared = shared
            env.r4 = loader.ModuleSet(st, h.modules)
            envs.append(env)
        env0 = envs[0]
        try:
            h.setup(env0)
            outs = world.run(lambda r: h.run(envs[r]))
        except (Inconclusive, Nondeterminism):
            raise
        except mpisim.Deadlock as e:
            h.on_deadlock(env0, e)
        except Exception as e:
            if isinstance(e, h.allowed_exceptions) and h.allowed_exceptions:
                return
            h.on_exception(env0, e, traceback.format_exc()[-1500:])
        else:
            h.post(env0, outs)
            state['outs'] = outs

    import random
    rnd = random.Random(seed)

    def on_path(eng):
        if state['outs'] is None or eng._path_violated or not want_traces:
            return
        n = eng.stats['reached']
        if len(traces) < want_traces:
            k = len(traces)
            traces.append(None)
        else:
            k = rnd.randrange(n)
            if k >= want_traces or n > 40 and rnd.random() > 0.2:
                return
        if eng.model is None:
            eng.path_model()
        traces[k] = (eng.path_model(), [norm(o, eng.model) for o in state['outs']])

    t = time.time()
    res = dict(harness=h.name, params=h.params, pin=h.pin, ok=True, inconclusive=None)
    try:
        eng.explore(body, max_paths=max_paths, deadline=deadline, on_path=on_path)
    except (Inconclusive, Nondeterminism) as e:
        res['ok'] = False
        res['inconclusive'] = f'{type(e).__name__}: {e}'
    except Exception as e:
        res['ok'] = False
        res['inconclusive'] = 'engine error: ' + traceback.format_exc()[-3000:]
    res['violations'] = [(v.label, v.values, v.detail) for v in eng.violations]
    res['known'] = eng.known_hits
    res['stats'] = eng.stats
    res['labels'] = eng.labels
    res['traces'] = [x for x in traces if x]
    res['wall'] = time.time() - t
    return res
