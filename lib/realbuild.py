"""Builds the real package (compiled extensions included) from the repository's working tree in a scratch directory."""
import atexit
import glob
import os
import shutil
import subprocess
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
_dir = None


def env():
    e = dict(os.environ)
    out = subprocess.run(['bash', '-c', 'set -a; . /opt/vp/env.sh; env -0'], capture_output=True, check=True).stdout
    for kv in out.decode().split('\0'):
        if '=' in kv:
            k, v = kv.split('=', 1)
            e[k] = v
    e['OMPI_CXX'] = 'g++'
    e.pop('CCACHE_DIR', None)
    return e


def _cleanup():
    global _dir, _work
    for d in (_dir, _work):
        if d and os.path.isdir(d):
            shutil.rmtree(d, ignore_errors=True)
    _dir = _work = None


def build():
    """Returns (path to put on PYTHONPATH, environment)."""
    global _dir
    if _dir:
        return os.path.join(_dir, 'src'), _env
    return _build()


def _build():
    global _dir, _env
    _env = env()
    _dir = tempfile.mkdtemp(prefix='verif_real_')
    owner = os.getpid()
    atexit.register(lambda: _cleanup() if os.getpid() == owner else None)
    shutil.copytree(os.path.join(REPO, 'src'), os.path.join(_dir, 'src'),
                    ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.o'))
    for f in os.listdir(REPO):
        p = os.path.join(REPO, f)
        if os.path.isfile(p) and not f.endswith('.so'):
            shutil.copy(p, _dir)
    _env['TMPDIR'] = os.path.join(_dir, 't')
    os.mkdir(_env['TMPDIR'])
    _env['CFLAGS'] = '-O1'
    r = subprocess.run(['/opt/venv/bin/python', 'setup.py', '-q', 'build_ext', '--inplace', '-j', '4'], cwd=_dir,
                       env=_env, capture_output=True, text=True)
    if r.returncode != 0 or len(glob.glob(os.path.join(_dir, 'src', 'repast4py', '*.so'))) < 2:
        raise RuntimeError('extension build failed:\n' + r.stderr[-3000:])
    _env['PYTHONPATH'] = os.path.join(_dir, 'src') + ':/verif_lib_placeholder'
    return os.path.join(_dir, 'src'), _env


_work = None


def work():
    """Scratch directory of the symbolic runs (made in the parent before the workers start)."""
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix='verif_work_')
        owner = os.getpid()
        atexit.register(lambda: _cleanup() if os.getpid() == owner else None)
    return _work


def scratch():
    build()
    return _env['TMPDIR']


if __name__ == '__main__':
    import time
    t = time.time()
    print(build()[0], time.time() - t)
