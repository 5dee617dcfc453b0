"""Builds the instrumented package from the repository's working tree (in the scratch directory of realbuild)."""
import glob
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from .. import realbuild
from . import instr

HERE = os.path.dirname(os.path.abspath(__file__))
FLAGS = '-std=c++11 -O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fPIC -DNDEBUG -w'.split()
_pkg = None
info = {}


def run(cmd, env):
    r = subprocess.run(cmd, env=env, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(' '.join(cmd)[:300] + '\n' + r.stderr[-3000:])
    return r.stdout


def build():
    """Directory for PYTHONPATH, environment, runtime library."""
    global _pkg
    if _pkg:
        return _pkg
    d = tempfile.mkdtemp(prefix='ll', dir=realbuild.work())
    env = realbuild.env()
    inc = run(['/opt/venv/bin/python', '-c', "import numpy,mpi4py,sysconfig;print('-I'+numpy.get_include(),'-I'+mpi4py.get_include(),'-I'+sysconfig.get_paths()['include'])"], env).split()
    inc += run(['mpicxx.openmpi', '-showme:compile'], env).split()
    src = os.path.join(d, 'src')
    shutil.copytree(os.path.join(realbuild.REPO, 'src'), src, ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.o'))
    p = os.path.join(src, 'repast4py')
    cpps = sorted(glob.glob(p + '/*.cpp'))
    suffix = run(['/opt/venv/bin/python', '-c', "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"], env).strip()
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda f: run(['clang++'] + FLAGS + ['-S', '-emit-llvm'] + inc + [f, '-o', f[:-4] + '.ll'], env), cpps))
        rt = os.path.join(d, 'librt_ll.so')
        frt = ex.submit(run, ['clang++', '-O2', '-fPIC', '-shared', '-w'] + inc + [os.path.join(HERE, 'rt.cpp'), '-o', rt], env)
        groups = {'_core': [f for f in cpps if os.path.basename(f) == 'coremodule.cpp'],
                  '_space': [f for f in cpps if os.path.basename(f) != 'coremodule.cpp']}
        n = 0
        for g, fs in groups.items():
            n += instr.main([f[:-4] + '.ll' for f in fs], [f[:-4] + '.i.ll' for f in fs])
        info['functions'] = n
        list(ex.map(lambda f: run(['clang++', '-w', '-O1' if False else '-O0', '-fPIC', '-c', f[:-4] + '.i.ll', '-o', f[:-4] + '.o'], env), cpps))
        frt.result()
        link = [x for x in run(['mpicxx.openmpi', '-showme:link'], env).split() if x.startswith(('-l', '-L'))]
        for g, fs in groups.items():
            run(['clang++', '-shared', '-o', os.path.join(p, g + suffix)] + [f[:-4] + '.o' for f in fs] + [rt, f'-Wl,-rpath,{d}'] + link, env)
    env['PYTHONPATH'] = src
    env['LLSYM_RT'] = rt
    for f in glob.glob(p + '/*.ll') + glob.glob(p + '/*.o'):
        os.remove(f)
    _pkg = (src, env, rt)
    return _pkg
