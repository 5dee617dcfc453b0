#!/usr/bin/env python3
"""Author's tool: writes seeded/<id>/ from tools/bugs/*.py and optionally verifies one in /repo.

plant.py write [ids]        make patch.diff, demo, meta.json (in a scratch copy of the sources)
plant.py verify ids         apply to /repo, build, stable tests, demo (must fail), checks, revert; demo on the clean tree
"""
import sys, os, json, subprocess, tempfile, shutil, glob, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(V, 'seeded')
DEMO = '''#!/bin/bash
# run with cwd /repo
d=$(cd "$(dirname "$0")" && pwd)
set -a; . /opt/vp/env.sh; set +a
export PYTHONPATH=$PWD/src:$d
TMPDIR=$(mktemp -d /tmp/demo.XXXXXX); export TMPDIR
trap 'rm -rf "$TMPDIR"' EXIT
cd "$TMPDIR"
timeout 200 %s /opt/venv/bin/python %s$d/demo.py
'''


def load():
    bugs = {}
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'bugs', '*.py'))):
        spec = importlib.util.spec_from_file_location('b', f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for b in m.BUGS:
            bugs[b['id']] = b
    return bugs


def write(b):
    t = tempfile.mkdtemp(prefix='plant')
    try:
        subprocess.run(f'git -C /repo archive HEAD src | tar x -C {t} && cd {t} && git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x', shell=True, check=True)
        for f, old, new in b['edits']:
            p = os.path.join(t, 'src/repast4py', f)
            s = open(p).read()
            if s.count(old) != 1:
                print('!!', b['id'], f, 'old text occurs', s.count(old))
                return False
            open(p, 'w').write(s.replace(old, new))
        d = subprocess.run(['git', '-C', t, 'diff'], capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(t)
    o = os.path.join(SEEDED, b['id'])
    os.makedirs(o, exist_ok=True)
    open(os.path.join(o, 'patch.diff'), 'w').write(d)
    n = b.get('ranks', 1)
    open(os.path.join(o, 'demo.sh'), 'w').write(DEMO % (f'mpirun.openmpi --oversubscribe -n {n}' if n > 1 else '', '-m mpi4py ' if n > 1 else ''))
    os.chmod(os.path.join(o, 'demo.sh'), 0o755)
    open(os.path.join(o, 'demo.py'), 'w').write(b['demo'].lstrip())
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(o, 'meta.json'), 'w'), indent=1)
    return True


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def demo(i):
    t = tempfile.mkdtemp(prefix='pd')
    try:
        for f in ('demo.sh', 'demo.py'):
            shutil.copy(os.path.join(SEEDED, i, f), t)
        r = sh(f'timeout 300 bash {t}/demo.sh', cwd='/repo')
        return r.returncode, (r.stdout + r.stderr)[-400:]
    finally:
        shutil.rmtree(t)


def verify(ids, bugs, tests=True, checks=True):
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    sh('bash /opt/vp/build.sh')
    clean = {i: demo(i) for i in ids}
    for i in ids:
        p = os.path.join(SEEDED, i, 'patch.diff')
        out = [i]
        if clean[i][0] != 0:
            out.append(f'DEMO FAILS ON CLEAN: {clean[i]}')
        try:
            r = sh(f'git -C /repo apply {p}')
            if r.returncode:
                print(i, 'APPLY FAILED', r.stderr); continue
            r = sh('bash /opt/vp/build.sh')
            if r.returncode:
                out.append('BUILD FAILED ' + r.stdout[-300:] + r.stderr[-300:])
            rc, txt = demo(i)
            out.append(f'demo rc {rc}' + ('' if rc else ' DEMO PASSES WITH BUG ' + txt))
            if tests:
                r = sh('bash /opt/vp/test.sh /tmp/plant.json')
                out.append(r.stdout.strip().splitlines()[-1] if r.stdout.strip() else 'no test output')
                f = json.load(open('/tmp/plant.json'))['failed']
                if f:
                    out.append('FAILED ' + ' '.join(f))
            if checks:
                pr = bugs[i]['property']
                r = sh(f'python3-vt run_check.py {pr}', cwd=V)
                vi = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                out.append(f'check {pr} exit {r.returncode} violations {len(vi)}' + ('' if r.returncode == 1 else ' NOT CAUGHT ' + r.stdout[-300:]))
        finally:
            sh('git -C /repo checkout -- .')
        print(' | '.join(out), flush=True)
    sh('bash /opt/vp/build.sh')


if __name__ == '__main__':
    bugs = load()
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith('-')] or list(bugs)
    if cmd == 'write':
        for i in ids:
            write(bugs[i])
    else:
        verify([i for i in ids if write(bugs[i])], bugs, '-t' not in sys.argv, '-c' not in sys.argv)
