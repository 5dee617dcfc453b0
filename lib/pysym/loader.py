"""Loads the real repast4py Python modules from the repository's source, with stand-ins
for the compiled extensions, mpi4py, numba and torch."""
import ast
import importlib.util
import os
import sys
import types
import warnings
from . import proxies

warnings.simplefilter('ignore', SyntaxWarning)

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'src', 'repast4py')
_code = {}


class _Conv(ast.NodeTransformer):
    """int(x) / float(x) calls go through the symbolic-aware conversions."""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('int', 'float'):
            n.func = ast.copy_location(ast.Name('__vp_' + n.func.id + '__', ast.Load()), n.func)
        return n


def source_code(mod):
    if mod not in _code:
        path = os.path.join(PKG, mod + '.py')
        with open(path) as f:
            tree = ast.fix_missing_locations(_Conv().visit(ast.parse(f.read(), path)))
            _code[mod] = (compile(tree, path, 'exec'), path)
    return _code[mod]


class _Finder:
    """Meta path finder for repast4py.* served from cached code objects."""

    def __init__(self, stubs):
        self.stubs = stubs

    def find_spec(self, name, path=None, target=None):
        if name == 'repast4py':
            return importlib.util.spec_from_loader(name, self, is_package=True)
        if name.startswith('repast4py.'):
            mod = name[len('repast4py.'):]
            if os.path.exists(os.path.join(PKG, mod + '.py')):
                return importlib.util.spec_from_loader(name, self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        if module.__name__ == 'repast4py':
            code, path = source_code('__init__')
            module.__path__ = [PKG]
        else:
            code, path = source_code(module.__name__[len('repast4py.'):])
        module.__file__ = path
        module.__dict__.update(proxies.BUILTINS)
        exec(code, module.__dict__)


class ModuleSet:
    """One process's view of the repast4py modules."""

    def __init__(self, stubs, mods=()):
        self.mods = {}
        self.stubs = stubs
        self.load(*mods)

    def load(self, *names):
        saved = {k: v for k, v in sys.modules.items()
                 if k == 'repast4py' or k.startswith('repast4py.') or k in self.stubs}
        for k in saved:
            del sys.modules[k]
        sys.modules.update(self.stubs)
        sys.modules.update(self.mods)
        finder = _Finder(self.stubs)
        sys.meta_path.insert(0, finder)
        try:
            for n in names:
                importlib.import_module('repast4py.' + n)
        finally:
            sys.meta_path.remove(finder)
            for k in list(sys.modules):
                if k == 'repast4py' or k.startswith('repast4py.'):
                    self.mods[k] = sys.modules.pop(k)
                elif k in self.stubs:
                    del sys.modules[k]
            sys.modules.update(saved)

    def __getattr__(self, n):
        mods = self.__dict__.get('mods', {})
        if 'repast4py.' + n in mods:
            return mods['repast4py.' + n]
        self.load(n)
        return self.mods['repast4py.' + n]


def numba_stub():
    m = types.ModuleType('numba')

    def jit(*a, **k):
        if a and callable(a[0]):
            return a[0]
        return lambda f: f
    m.jit = m.njit = jit
    m.prange = range
    for t in ('int32', 'int64', 'float64', 'boolean'):
        setattr(m, t, t)
    return m


class Agent:
    """Contract of the compiled Agent base class."""

    def __init__(self, id, type, rank=0):
        if type < 0:
            raise ValueError('Type component of agent unique id must be a non-negative integer')
        self.__uid = (id, type, rank)
        self.local_rank = rank

    id = property(lambda s: s.__uid[0])
    type = property(lambda s: s.__uid[1])
    uid_rank = property(lambda s: s.__uid[2])
    uid = property(lambda s: s.__uid)

    def __hash__(self):
        # deterministic iteration order of hash tables across re-executions
        return hash(self.__uid)

    def __repr__(self):
        return 'Agent(%d, %d, %d)' % self.__uid

    __str__ = __repr__


def core_stub():
    m = types.ModuleType('repast4py._core')
    m.Agent = Agent
    m.Agent.__module__ = '_core'
    return m


def default_stubs(comm, torch=None, space=None):
    from . import mpisim
    mpi, MPI = mpisim.make_module(comm)
    st = {'mpi4py': mpi, 'mpi4py.MPI': MPI, 'numba': numba_stub(), 'repast4py._core': core_stub()}
    if torch is None:
        torch = types.ModuleType('torch')
        torch.manual_seed = lambda s: None
        torch.float64 = 'float64'
        torch.long = 'int64'
    st['torch'] = torch
    if space is None:
        space = types.ModuleType('repast4py._space')
        for n in ('SharedGrid', 'Grid', 'SharedContinuousSpace', 'ContinuousSpace', 'CartesianTopology',
                  'DiscretePoint', 'ContinuousPoint', 'GridStickyBorders', 'GridPeriodicBorders', 'SharedCSpace', 'CSpace'):
            setattr(space, n, type(n, (), {}))
    st['repast4py._space'] = space
    return st
