"""Loads /repo's redrock modules into a private world in which numpy, numba, scipy, ...
resolve to the symbolic shims.  Source is read from /repo on every run."""
import builtins
import hashlib
import importlib
import os
import sys
import types

import numpy as np

from . import snp
from .engine import (Fraction, Sym, SymBool, SymBV, SymInt, SymReal, Unsupported, is_sym, norm_scalar)

REPO_PY = os.environ.get('VERIF_REPO', '/repo') + '/py'
_CODE = {}
SOURCES = {}


def _source(name):
    rel = name.replace('.', '/')
    for p in (f'{REPO_PY}/{rel}.py', f'{REPO_PY}/{rel}/__init__.py'):
        if os.path.exists(p):
            return p
    raise ImportError(name)


def code_for(name):
    if name not in _CODE:
        p = _source(name)
        src = open(p, 'rb').read()
        SOURCES[os.path.relpath(p, os.path.dirname(REPO_PY))] = hashlib.sha256(src).hexdigest()[:16]
        _CODE[name] = (compile(src, p, 'exec', dont_inherit=True), p)
    return _CODE[name]


def script_code(name):
    p = os.path.join(os.path.dirname(REPO_PY), 'bin', name)
    if p not in _CODE:
        src = open(p, 'rb').read()
        SOURCES['bin/' + name] = hashlib.sha256(src).hexdigest()[:16]
        _CODE[p] = compile(src, p, 'exec', dont_inherit=True)
    return _CODE[p], p


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, SymReal))

    def __call__(cls, x=0.0):
        if isinstance(x, snp.SArr) and x.size == 1:
            x = snp.raw(x).reshape(-1)[0]
        if isinstance(x, SymReal):
            return x
        if isinstance(x, Sym):
            return SymReal.lift(x)
        return builtins.float(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)

    def __getattr__(cls, n):
        return getattr(builtins.float, n)


class sfloat(metaclass=_FloatMeta):
    _shim_of = builtins.float


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.int, SymInt, SymBV))

    def __call__(cls, x=0, *a):
        if isinstance(x, snp.SArr) and x.size == 1:
            x = snp.raw(x).reshape(-1)[0]
        if isinstance(x, (SymInt, SymBV)):
            return x
        if isinstance(x, SymReal):
            return x.to_int()
        if isinstance(x, SymBool):
            return x.as_int()
        return builtins.int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)

    def __getattr__(cls, n):
        return getattr(builtins.int, n)


class sint(metaclass=_IntMeta):
    _shim_of = builtins.int


def stype(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, (snp.SArr, snp.PArr)):
            return np.ndarray
        if isinstance(x, SymReal):
            return np.float64
        if isinstance(x, (SymInt, SymBV)):
            return np.int64
        if isinstance(x, SymBool):
            return np.bool_
        return builtins.type(x)
    return builtins.type(*a)


def sisinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    ts = tuple(tt for tt in ts)
    if isinstance(x, SymReal) and any(tt in (np.floating, np.float64, np.number, builtins.float, sfloat) for tt in ts):
        return True
    if isinstance(x, (SymInt, SymBV)) and any(tt in (np.integer, np.int64, np.number, builtins.int, sint) for tt in ts):
        return True
    if isinstance(x, SymBool) and any(tt in (np.bool_, builtins.bool) for tt in ts):
        return True
    return builtins.isinstance(x, tuple(stype_unshim(tt) for tt in ts))


def stype_unshim(t):
    return getattr(t, '_shim_of', t) if isinstance(t, type) else t


def smin(*a, **k):
    return builtins.min(*a, **k)


def sround(x, n=None):
    return round(x) if n is None else round(x, n)


class World:
    """A private copy of the redrock package."""
    symbolic = True

    def __init__(self, shims=None, quiet=True):
        self.mods = {}
        self.shims = {}
        self.printed = []
        self.builtins = dict(vars(builtins))
        self.builtins['__import__'] = self._import
        self.builtins['float'] = sfloat
        self.builtins['int'] = sint
        self.builtins['type'] = stype
        self.builtins['isinstance'] = sisinstance
        self.builtins['print'] = lambda *a, **k: None
        self.shims.update(default_shims())
        if shims:
            self.shims.update(shims)

    # -- import machinery
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or globals['__name__'].rpartition('.')[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = f'{pkg}.{name}' if name else pkg
        top = name.split('.')[0]
        if top == 'redrock':
            m = self.load(name)
            if not fromlist:
                return self.load('redrock')
            for f in fromlist:
                if f != '*' and not hasattr(m, f):
                    try:
                        setattr(m, f, self.load(f'{name}.{f}'))
                    except ImportError:
                        raise ImportError(f"cannot import name '{f}' from '{name}'")
            return m
        if name in self.shims:
            s = self.shims[name]
            if s is None:
                raise ImportError(f'No module named {name}')
            if fromlist:
                return s
            return self.shims[top] if top in self.shims else s
        if top in self.shims:
            if self.shims[top] is None:
                raise ImportError(f'No module named {name}')
            m = self.shims[top]
            if '.' in name and vars(m).get('_base') is not None:
                real = builtins.__import__(name, globals, locals, fromlist, 0)
                return real if fromlist else m
            for part in name.split('.')[1:]:
                m = getattr(m, part)
            return m if fromlist else self.shims[top]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        code, path = code_for(name)
        m = types.ModuleType(name)
        m.__file__ = path
        ispkg = path.endswith('__init__.py')
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        par, _, leaf = name.rpartition('.')
        if par:
            p = self.load(par)
            setattr(p, leaf, m)
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        return m

    def __getattr__(self, leaf):
        if leaf.startswith('__'):
            raise AttributeError(leaf)
        return self.load('redrock.' + leaf)

    def script(self, name):
        code, path = script_code(name)
        m = types.ModuleType(name.replace('-', '_'))
        m.__file__ = path
        m.__dict__['__builtins__'] = dict(self.builtins, print=print)
        exec(code, m.__dict__)
        return m

    def patch(self, module, attr, value):
        m = self.load(module if module.startswith('redrock') else 'redrock.' + module)
        if not hasattr(m, attr):
            return
        old = getattr(m, attr)
        setattr(m, attr, value)
        # names imported elsewhere
        for mm in list(self.mods.values()):
            for k, v in list(vars(mm).items()):
                if v is old and callable(old):
                    setattr(mm, k, value)

    def close(self):
        pass


class ConcreteWorld:
    """The real, unshimmed package."""
    symbolic = False

    def __init__(self, shims=None):
        if REPO_PY not in sys.path:
            sys.path.insert(0, REPO_PY)
        self._undo = []
        self._mods = {}
        if shims:
            for k, v in shims.items():
                old = sys.modules.get(k)
                sys.modules[k] = v
                self._undo.append(lambda k=k, old=old: sys.modules.pop(k, None) if old is None
                                  else sys.modules.__setitem__(k, old))

    def load(self, name):
        m = importlib.import_module(name)
        assert m.__file__.startswith(REPO_PY), m.__file__
        return m

    def script(self, name):
        code, path = script_code(name)
        m = types.ModuleType(name.replace('-', '_'))
        m.__file__ = path
        exec(code, m.__dict__)
        return m

    def __getattr__(self, leaf):
        if leaf.startswith('_'):
            raise AttributeError(leaf)
        return self.load('redrock.' + leaf)

    def patch(self, module, attr, value):
        m = self.load(module if module.startswith('redrock') else 'redrock.' + module)
        if not hasattr(m, attr):
            return
        old = getattr(m, attr)
        setattr(m, attr, value)
        self._undo.append(lambda: setattr(m, attr, old))
        for n, mm in list(sys.modules.items()):
            if n.startswith('redrock') and mm is not None:
                for k, v in list(vars(mm).items()):
                    if v is old and callable(old) and not (mm is m and k == attr):
                        setattr(mm, k, value)
                        self._undo.append(lambda mm=mm, k=k: setattr(mm, k, old))

    def close(self):
        for u in reversed(self._undo):
            u()
        self._undo = []


class NS(types.ModuleType):
    def __init__(self, name, base=None, **kw):
        super().__init__(name)
        self.__dict__['_base'] = base
        self.__dict__.update(kw)

    def __getattr__(self, n):
        b = self.__dict__.get('_base')
        if b is None or n.startswith('__'):
            raise AttributeError(n)
        return getattr(b, n)


def _jit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


_SHIMS = {}


def default_shims():
    if not _SHIMS:
        import astropy
        import scipy
        import scipy.constants
        import scipy.optimize
        import scipy.sparse
        import scipy.special
        from . import fakes
        numba = NS('numba', None, jit=_jit, njit=_jit, vectorize=_jit, prange=range, __version__='0')
        sparse = fakes.SparseShim()
        optimize = NS('scipy.optimize', scipy.optimize, nnls=fakes.nnls_stub, lsq_linear=fakes.lsq_linear_stub)
        special = NS('scipy.special', scipy.special, legendre=fakes.legendre)
        sc = NS('scipy', scipy, sparse=sparse, optimize=optimize, special=special)
        tab = fakes.table_module()
        _SHIMS.update({
            'astropy': NS('astropy', astropy, table=tab), 'astropy.table': tab, 'numpy': snp.NP, 'numpy.linalg': snp.NP.linalg, 'numba': numba, 'scipy': sc, 'scipy.sparse': sparse,
            'scipy.optimize': optimize, 'scipy.special': special, 'scipy.constants': scipy.constants,
            'cupy': None, 'cupyx': None, 'mpi4py': None,
        })
    return _SHIMS
