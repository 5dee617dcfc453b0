"""Runs harnesses concretely over the instrumented extension and reports the symbolic trace of every run.

Requests on stdin (one JSON line): {module, cls, params, pin} once, then {values} per run. Replies: one JSON line, then
the raw node and event arrays."""
import ctypes
import importlib
import json
import os
import struct
import sys
import traceback

out = os.fdopen(os.dup(1), 'wb', buffering=0)
os.dup2(2, 1)
LIB, PKG = sys.argv[1], sys.argv[2]
sys.path.insert(0, LIB)
sys.path.insert(0, PKG)
from lib.llsym import lltypes as T   # noqa


def main():
    inp = sys.stdin
    from lib.harness import LazyMods, AssumptionFailed
    import repast4py
    assert os.path.realpath(repast4py.__file__).startswith(os.path.realpath(PKG))
    import gc
    job = json.loads(inp.readline())
    mod = importlib.import_module(job['module'])
    cls = getattr(mod, job['cls'])
    from mpi4py import MPI
    rt = T.RT(os.environ['LLSYM_RT'])
    sc = job['scratch']
    rt.lib.rt_released_what.restype = ctypes.c_char_p
    rt.lib.rt_released.restype = ctypes.c_uint64
    rt.lib.rt_track_size.argtypes = [ctypes.py_object]
    rt.lib.rt_track_init()
    rt.lib.rt_probe(1)
    import repast4py.core, repast4py.space

    class P(repast4py.space.DiscretePoint):
        __slots__ = ()
    for o in (repast4py.core.Agent(0, 0, 0), repast4py.space.DiscretePoint(0, 0), repast4py.space.ContinuousPoint(0, 0), P(0, 0)):
        rt.lib.rt_track_size(o)
    rt.lib.rt_probe(0)
    o = None
    rt.lib.rt_native_live.restype = ctypes.c_uint64
    for line in inp:
        values = json.loads(line)['values']
        rt.reset()
        h = cls(pin=job['pin'], **job['params'])
        env = T.LLEnv(rt, values, MPI.COMM_WORLD, h.pin, LazyMods(), sc)
        rep = {'outs': None, 'aborted': False}
        native = rt.lib.rt_native_live()
        leaks = h.native_leaks
        rt.lib.rt_track(1)
        try:
            h.setup(env)
            o = h.run(env)
            outs = [o] * h.ranks     # harnesses of several ranks return the observations of all ranks on each
            h.post(env, outs)
            rep['outs'] = T.norm(outs)
        except AssumptionFailed:
            rep['aborted'] = True
        except T.Stop:
            pass
        except Exception as e:
            if not (h.allowed_exceptions and isinstance(e, h.allowed_exceptions)):
                try:
                    h.on_exception(env, e, traceback.format_exc()[-1500:])
                except T.Stop:
                    pass
            e = None
        o = outs = h = None
        gc.collect(0)
        if not env.failed and not rep['aborted']:
            try:
                env.check(rt.lib.rt_released() == 0, 'released-object', f'{rt.lib.rt_released()} accesses: object {rt.lib.rt_released_what().decode()}')
                if leaks:
                    gc.collect()
                    env.check(rt.lib.rt_native_live() == native, 'native-leak', f'{rt.lib.rt_native_live() - native} blocks of the compiled code are not released')
            except T.Stop:
                pass
        rt.lib.rt_track(0)
        rep['labels'] = env.labels
        rep['details'] = env.details
        rep['inputs'] = env.inputs
        rep['failed'] = env.failed
        rep['known_keys'] = env.known_keys
        nodes, events = rt.dump()
        rep['nn'], rep['ne'] = len(nodes), len(events)
        out.write(json.dumps(rep, default=repr).encode() + b'\n')
        out.write(nodes)
        out.write(events)


main()
os._exit(0)
