"""Runs harnesses on the real package (started under mpirun by the runner).

usage: replay.py JOB.json OUT.json     JOB: {lib, module, cls, params, pin, items:[values...], pkg}
"""
import importlib
import json
import os
import sys
import traceback


def norm(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if hasattr(x, 'tolist') and not isinstance(x, (list, tuple, dict)):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return [norm(i) for i in x]
    if isinstance(x, (set, frozenset)):
        return sorted((norm(i) for i in x), key=repr)
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, (bool, int, float, str)) or x is None:
        return x
    return repr(x)


def main():
    job = json.load(open(sys.argv[1]))
    out_path = sys.argv[2]
    sys.path.insert(0, job['lib'])
    sys.path.insert(0, job['pkg'])
    from mpi4py import MPI
    import repast4py
    assert os.path.realpath(repast4py.__file__).startswith(os.path.realpath(job['pkg'])), repast4py.__file__
    from lib.harness import RealEnv, LazyMods, AssumptionFailed
    mod = importlib.import_module(job['module'])
    comm = MPI.COMM_WORLD
    rank, size = comm.Get_rank(), comm.Get_size()
    results = []

    def dump(extra=None):
        with open(out_path + f'.{rank}', 'w') as f:
            json.dump({'results': results, 'error': extra}, f)

    for i, values in enumerate(job['items']):
        h = getattr(mod, job['cls'])(pin=job['pin'], **job['params'])
        world = comm.Dup()
        sc = os.path.join(job['scratch'], f'item{i}')
        os.makedirs(sc, exist_ok=True)
        world.Barrier()
        env = RealEnv(values, world, rank, size, h.pin, LazyMods(), sc)
        try:
            h.setup(env)
            out = h.run(env)
        except AssumptionFailed:
            results.append({'assumption': True})
            dump({'label': 'assumption', 'index': i})
            comm.Abort(3)
        except Exception as e:
            if h.allowed_exceptions and isinstance(e, h.allowed_exceptions):
                results.append({'allowed': True})
                continue
            dump({'label': 'no-exception', 'index': i, 'detail': traceback.format_exc()[-1500:]})
            comm.Abort(4)
        outs = comm.gather(out, root=0)
        failed = comm.gather(env.failed, root=0)
        if rank == 0:
            env.failed = [x for f in failed for x in f]
            try:
                h.post(env, outs)
            except Exception:
                dump({'label': 'post', 'index': i, 'detail': traceback.format_exc()[-1500:]})
                comm.Abort(5)
            results.append({'outs': norm(outs), 'failed': env.failed})
        else:
            results.append({})
        dump({'label': 'no-deadlock', 'index': i + 1})
    dump(None)
    if rank == 0:
        pass


main()
