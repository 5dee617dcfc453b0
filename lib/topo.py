"""Topology tables (local bounds, neighbor buffers) computed by the freshly built real extension.

The harnesses of the Python layers run over these, so they follow the current C++ sources;
the C++ computation itself is decided by R12/R13."""
import json
import os
import subprocess
import tempfile
from . import realbuild

TABLES = {}


def key(n, bounds, periodic, buffer, cspace=False):
    return json.dumps([n, list(bounds), bool(periodic), buffer, bool(cspace)])


def cfg(n, bounds, periodic, buffer, cspace=False):
    b = list(bounds) + [0] * (6 - len(bounds))
    return dict(n=n, bounds=b, periodic=bool(periodic), buffer=buffer, cspace=bool(cspace))


def table(c):
    return TABLES[key(c['n'], c['bounds'], c['periodic'], c['buffer'], c.get('cspace'))]


def prepare(cfgs):
    """Fills TABLES for the configurations; called before the worker pool is forked."""
    from . import runner
    pkg, env = realbuild.build()
    env = dict(env)
    env['PYTHONPATH'] = pkg
    todo = {}
    for c in cfgs:
        k = key(c['n'], c['bounds'], c['periodic'], c['buffer'], c.get('cspace'))
        if k not in TABLES:
            todo.setdefault(c['n'], {})[k] = c
    for n, d in todo.items():
        sc = tempfile.mkdtemp(dir=realbuild.scratch())
        jf, of = os.path.join(sc, 'c.json'), os.path.join(sc, 'o.json')
        items = list(d.items())
        json.dump([c for _, c in items], open(jf, 'w'))
        rc, out, err, hung = runner.mpirun(n, ['/opt/venv/bin/python', os.path.join(os.path.dirname(__file__), 'topotab_run.py'), jf, of],
                                           env, 200, sc)
        res = json.load(open(of)) if os.path.exists(of) else []
        if len(res) != len(items):
            bad = items[len(res)][1]
            raise RuntimeError(f'no topology table for {bad}: hung={hung} rc={rc} {err[-1500:]}')
        for (k, _), r in zip(items, res):
            TABLES[k] = r
