"""Check driver: runs a property's symbolic jobs, replays counterexamples on the real code,
validates sampled path traces on the real code, writes the evidence file, sets the exit code."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from lib import realbuild  # noqa


class Job:
    """A symbolic job: Harness class + parameters (+ pinned variables = shard)."""

    def __init__(self, cls, params=None, pin=None, budget=None, traces=2):
        self.cls, self.params, self.pin, self.budget, self.traces = cls, params or {}, pin or {}, budget, traces


def _run_job(a):
    modname, clsname, params, pin, deadline, traces, seed = a
    try:
        mod = importlib.import_module(modname)
        h = getattr(mod, clsname)(pin=pin, **params)
        if getattr(h, 'engine', None) == 'll':
            from lib.llsym import llrun
            return llrun.run(h, modname, deadline=deadline, want_traces=traces, seed=seed)
        from lib import symrun
        return symrun.run(h, deadline=deadline, want_traces=traces, seed=seed)
    except Exception:
        return dict(harness=clsname, params=params, pin=pin, ok=False, inconclusive='job error: ' + traceback.format_exc()[-2500:],
                    violations=[], known={}, stats={}, labels={}, traces=[], wall=0)


def mpirun(n, cmd, env, timeout, cwd):
    if n == 1:
        full = cmd
    else:
        full = ['mpirun.openmpi', '-n', str(n)] + cmd
        # session directories of its own: concurrent runs remove each other's
        env = dict(env, TMPDIR=tempfile.mkdtemp(prefix='o', dir=cwd))
    for again in range(3):
        rc, out, err, hung = _run(full, env, timeout, cwd)
        if hung or rc == 0 or not any(x in err for x in ('ORTE_SUCCESS', 'orte_init failed', 'opal_init failed')):
            break
    return rc, out, err, hung


def _run(full, env, timeout, cwd):
    p = subprocess.Popen(full, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err, False
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGTERM)
            time.sleep(0.5)
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return -1, out, err, True


def real_run(modname, clsname, params, pin, items, ranks, timeout=60):
    """Runs items of a harness on the real package. Returns (per-item results, error label or None, text)."""
    pkg, env = realbuild.build()
    sc = tempfile.mkdtemp(dir=realbuild.scratch())
    jf, of = os.path.join(sc, 'job.json'), os.path.join(sc, 'out.json')
    json.dump(dict(lib=VERIF, pkg=pkg, module=modname, cls=clsname, params=params, pin=pin, items=items, scratch=sc), open(jf, 'w'))
    env = dict(env)
    env['PYTHONPATH'] = pkg + ':' + VERIF
    env['VERIF_REPLAY'] = '1'
    rc, out, err, hung = mpirun(ranks, ['/opt/venv/bin/python', os.path.join(VERIF, 'lib', 'replay.py'), jf, of], env, timeout, sc)
    ranks_out = []
    for r in range(ranks):
        try:
            ranks_out.append(json.load(open(f'{of}.{r}')))
        except Exception:
            ranks_out.append(None)
    res = ranks_out[0]['results'] if ranks_out[0] else []
    label, det = None, ''
    if hung:
        label, det = 'no-deadlock', 'timed out'
    elif rc != 0:
        for o in ranks_out:
            if o and o.get('error') and o['error']['label'] != 'no-deadlock':
                label, det = o['error']['label'], o['error'].get('detail', '')
                break
        else:
            label, det = 'crash', f'exit {rc}: {err[-1500:]}'
    return res, label, det


class Known:
    """Committed known findings: findings.txt lines 'KNOWN <property> <key> <text>' / 'fixed: ...'."""

    def __init__(self, prop):
        self.items = {}
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p):
                w = line.strip().split(None, 3)
                if len(w) >= 3 and w[0] == 'KNOWN' and w[1] == prop:
                    self.items[w[2]] = w[3] if len(w) > 3 else ''


def main(prop, modname, argv=None):
    argv = argv if argv is not None else sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    only = argv[argv.index('--only') + 1] if '--only' in argv else None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    mod = importlib.import_module(modname)
    total = getattr(mod, 'TOTAL_S', {'quick': 780, 'thorough': 6 * 3600})[tier]
    deadline = t0 + total
    known = Known(prop)
    code, ev = 2, None
    try:
        code, ev = _main(prop, modname, mod, tier, seed, deadline, known, t0, only)
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        realbuild._cleanup()
    if ev is not None:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
    print(f'{prop} {tier}: exit {code} after {time.time() - t0:.1f} s', flush=True)
    sys.stdout.flush()
    os._exit(code)


def write_replay(prop, d):
    os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
    s = json.dumps(d, sort_keys=True, default=repr)
    p = os.path.join(VERIF, 'out', f'{prop}-{hashlib.sha1(s.encode()).hexdigest()[:10]}.json')
    with open(p, 'w') as f:
        f.write(json.dumps(d, indent=1, default=repr))
    return p


def _main(prop, modname, mod, tier, seed, deadline, known, t0, only=None):
    if hasattr(mod, 'prepare'):
        mod.prepare(tier)
    jobs = mod.jobs(tier)
    if only:
        jobs = [j for j in jobs if only in j.cls.__name__ + str(j.params)]
    realbuild.work()
    if any(getattr(j.cls, 'engine', None) == 'll' for j in jobs):
        from lib.llsym import build as llbuild
        llbuild.build()
    ctx = mp.get_context('fork')
    args = [(modname, j.cls.__name__, j.params, j.pin, min(deadline, t0 + (j.budget or 10 ** 9)), j.traces, seed) for j in jobs]
    byarg = {}
    results = []
    nproc = min(int(os.environ.get('VERIF_JOBS', '8')), max(1, len(args)))
    pool = ctx.Pool(nproc, maxtasksperchild=getattr(mod, 'MAXTASKS', None)) if args else None
    it = pool.imap_unordered(_run_job_i, list(enumerate(args))) if args else []
    violation = None
    builderr = []
    import threading
    bt = threading.Thread(target=lambda: _try_build(builderr))
    bt.start()
    confirmed = None
    unconfirmed = []
    problems = []
    known_seen = {}
    for idx, res in it:
        res['job'] = idx
        results.append(res)
        if os.environ.get('VERIF_VERBOSE'):
            print(res['harness'], res['params'], res['pin'], res['stats'].get('paths'), f"{res['wall']:.1f}s",
                  'VIOL ' + str(res['violations'])[:1500] if res['violations'] else '', res['inconclusive'] or '', flush=True)
        if res['inconclusive']:
            problems.append(f"{res['harness']} {res['params']} {res['pin']}: {res['inconclusive']}")
        for k, vals in res['known'].items():
            known_seen.setdefault(k, (idx, vals))
        for (label, values, detail) in res['violations']:
            if confirmed or len(unconfirmed) > 8:
                break
            bt.join()
            if builderr:
                problems.append('build: ' + builderr[0])
                break
            ok, how = confirm(modname, jobs[idx], label, values)
            if ok:
                confirmed = dict(property=prop, harness=res['harness'], module=modname, params=res['params'], pin=res['pin'],
                                 label=label, values=values, detail=detail, real=how)
                break
            unconfirmed.append(f"{res['harness']} {res['params']} {res['pin']} {label}: {detail[:600]} values={values} real: {how}")
        if confirmed:
            break
    if pool:
        pool.terminate()
    bt.join()
    wall = lambda: time.time() - t0
    nviol = 0
    code = 0
    if confirmed:
        path = write_replay(prop, confirmed)
        print(f"  {confirmed['harness']} {confirmed['params']}: {confirmed['label']}: {confirmed['detail'][:800]}")
        print(f"  values: {json.dumps(confirmed['values'], default=repr)[:800]}")
        print(f"  reproduced on the real code: {str(confirmed['real'])[:800]}")
        print(f'VIOLATION property={prop} replay={path}', flush=True)
        code, nviol = 1, 1
    for k, (idx, vals) in known_seen.items():
        if k in known.items:
            print(f'KNOWN-FINDING: property={prop} {k}: {known.items[k]}')
        elif not confirmed:
            # a suppressing predicate without a committed entry: treat as a violation
            path = write_replay(prop, dict(property=prop, known=k, values=vals))
            print(f'VIOLATION property={prop} replay={path}')
            code, nviol = 1, 1
    if code == 0 and (unconfirmed or problems):
        for u in unconfirmed:
            print('UNCONFIRMED counterexample (not reproduced on the real code):', u)
        for u in problems:
            print('INCONCLUSIVE:', u)
        code = 2
    # trace validation on the real code
    validated, trouble = 0, []
    if not confirmed and nviol == 0 and not only:
        validated, trouble, real = validate(modname, jobs, results, builderr, getattr(mod, 'VALIDATE', {'quick': 8, 'thorough': 120})[tier], deadline)
        if real:
            # a path model of the solver for which an assertion fails on the real code (twice): the encoding was too coarse to see it
            confirmed = dict(property=prop, module=modname, **real[0])
            path = write_replay(prop, confirmed)
            print(f"  {confirmed['harness']} {confirmed['params']}: {confirmed['label']}: {confirmed['real'][:1500]}")
            print(f"  values: {json.dumps(confirmed['values'], default=repr)[:800]}")
            print(f'VIOLATION property={prop} replay={path}', flush=True)
            code, nviol = 1, 1
        elif trouble:
            for x in trouble[:5]:
                print('TRACE MISMATCH between symbolic run and real code:', x)
            code = 2
    tot = {}
    labels = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
    # vacuity: every declared obligation must have been reached
    if code == 0 and not only:
        missing = [l for l in getattr(mod, 'LABELS', []) if not labels.get(l)]
        if missing:
            print('VACUOUS: assertions never reached:', missing)
            code = 2
        if any(r['stats'].get('reached', 0) == 0 for r in results):
            bad = [(r['harness'], r['params'], r['pin']) for r in results if r['stats'].get('reached', 0) == 0
                   and not getattr(getattr(mod, r['harness'], None), 'may_be_empty', False)]
            if bad and not all(getattr(mod, 'MAY_BE_EMPTY', False) for _ in bad):
                print('VACUOUS: no path reached the assertions in', bad[:5])
                code = 2
    samples = []
    for r in results[:400]:
        for vals, outs in r['traces'][:1]:
            if len(samples) < 4:
                samples.append({'harness': r['harness'], 'params': r['params'], 'inputs': vals,
                                'observed': json.loads(json.dumps(outs, default=repr)) if len(json.dumps(outs, default=repr)) < 1500 else '...'})
    cov = dict(
        states=tot.get('reached', 0), transitions=tot.get('forks', 0) + tot.get('asserts', 0),
        traces_validated_against_impl=validated, samples=samples,
        functions_encoded=mod.FUNCTIONS, bounds=mod.BOUNDS if isinstance(mod.BOUNDS, list) else mod.BOUNDS[tier],
        outside=getattr(mod, 'OUTSIDE', []),
        harness_jobs=len(results), paths=tot.get('paths', 0), paths_reaching_assertions=tot.get('reached', 0),
        branch_decisions=tot.get('forks', 0), branch_queries=tot.get('branch_queries', 0),
        assertion_queries=tot.get('assert_queries', 0), assertions=labels, solver_s=round(tot.get('solver_s', 0), 2),
        exhaustive=(code == 0), rule='states = feasible paths (path conditions) on which the assertions were decided for all values')
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall(), 2), violations=nviol)
    print(f"  jobs {len(results)} paths {tot.get('paths', 0)} forks {tot.get('forks', 0)} queries {tot.get('branch_queries', 0)}+{tot.get('assert_queries', 0)} "
          f"solver {tot.get('solver_s', 0):.1f}s traces validated {validated}", flush=True)
    return code, ev


def _run_job_i(ia):
    return ia[0], _run_job(ia[1])


def _try_build(err):
    try:
        realbuild.build()
    except Exception as e:
        err.append(str(e))


def confirm(modname, job, label, values):
    """Does the counterexample also fail on the real code?"""
    h = job.cls(pin=job.pin, **job.params)
    if hasattr(h, 'confirm'):
        return h.confirm(label, values)
    res, err, det = real_run(modname, job.cls.__name__, job.params, job.pin, [values], h.ranks, timeout=25)
    if err == 'assumption':
        return False, 'assumption fails on the real code'
    if err:
        return True, f'{err}: {det[-700:]}'
    if res and res[0].get('failed'):
        f = [x for x in res[0]['failed'] if not x[0].startswith('known:')]
        return bool(f), f
    if label in ('released-object', 'native-leak'):
        # the memory may not have been used again yet: repeat it with the accesses of the compiled code checked
        from .llsym import llrun
        w = llrun.Worker(h, modname)
        try:
            f = w.run(values)[0]['failed']
        except llrun.Crash as e:
            f = [str(e)]
        finally:
            w.stop()
        return bool(f), f
    return False, f'passes: {str(res)[:600]}'


def approx_eq(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        if a == b or (a != a and b != b):
            return True
        return abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(approx_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(approx_eq(a[k], b[k]) for k in a)
    return a == b


def validate(modname, jobs, results, builderr, limit, deadline):
    """Replays sampled path models on the real code and compares observations."""
    groups = {}
    for r in results:
        j = jobs[r['job']]
        if getattr(j.cls, 'no_validation', False):
            continue
        for vals, outs in r['traces']:
            key = (j.cls.__name__, json.dumps(j.params, sort_keys=True, default=repr))
            groups.setdefault(key, []).append((j, dict(vals), outs))
    if not groups:
        return 0, [], []
    if builderr:
        return 0, ['build failed: ' + builderr[0]], []
    # round robin over groups
    chosen = {}
    n = 0
    while n < limit and any(groups.values()):
        for k in list(groups):
            if groups[k] and n < limit:
                chosen.setdefault(k, []).append(groups[k].pop(0))
                n += 1
    ok, bad, real = 0, [], []
    from concurrent.futures import ThreadPoolExecutor

    def one(k):
        items = chosen[k]
        j = items[0][0]
        h = j.cls(pin={}, **j.params)
        vals = []
        for (jj, v, _) in items:
            v = dict(v)
            v.update(jj.pin)
            vals.append(v)
        return k, real_run(modname, j.cls.__name__, j.params, {}, vals, h.ranks, timeout=120)
    with ThreadPoolExecutor(4) as ex:
        for k, (res, err, det) in ex.map(one, list(chosen)):
            items = chosen[k]
            if err:
                bad.append(f'{k}: {err}: {det[-800:]}')
                if err in ('no-exception', 'crash') and len(res) < len(items) and len(real) < 2:
                    real += again(modname, items[len(res)][0], items[len(res)][1])
                continue
            for (jj, v, outs), r in zip(items, res):
                if r.get('allowed'):
                    ok += 1
                    continue
                outs = json.loads(json.dumps(outs, default=repr))
                if r['failed'] and any(not f[0].startswith('known:') for f in r['failed']):
                    bad.append(f'{k} {v}: property fails on the real code: {r["failed"]}')
                    if len(real) < 2:
                        real += again(modname, jj, v)
                elif not getattr(jj.cls, 'compare_outs', True) or approx_eq(outs, r['outs']):
                    ok += 1
                else:
                    bad.append(f'{k} {v}: symbolic {str(outs)[:700]} real {str(r["outs"])[:700]}')
    return ok, bad, real


def again(modname, job, v):
    """Does the real code fail once more, alone, for these values?"""
    v = dict(v)
    v.update(job.pin)
    h = job.cls(pin={}, **job.params)
    res, err, det = real_run(modname, job.cls.__name__, job.params, {}, [v], h.ranks, timeout=120)
    f = []
    if err in ('no-exception', 'crash'):
        f = [[err, det[-1200:]]]
    elif not err and res:
        f = [x for x in res[0].get('failed', []) if not x[0].startswith('known:')]
    return [dict(harness=job.cls.__name__, params=job.params, pin={}, label=f[0][0], values=v, detail='', real=str(f))] if f else []
