"""A cupy whose device arrays hold host data: separate array type, no implicit mixing with numpy arrays, kernels executed from
their CUDA source (llir.py)."""
import types

import numpy as np

from . import engine as E
from . import llir, snp
from .loader import NS

HOSTONLY = ('asarray', 'array', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'frombuffer')


def is_host(x):
    return isinstance(x, np.ndarray) and x.ndim > 0


def has_dev(x):
    if isinstance(x, CArr):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_dev(e) for e in x)
    if isinstance(x, dict):
        return any(has_dev(e) for e in x.values())
    return False


def has_host(x):
    return is_host(x) or (isinstance(x, (list, tuple)) and any(has_host(e) for e in x))


def un(x, strict=False):
    if isinstance(x, CArr):
        return x.h
    if strict and is_host(x):
        raise TypeError("Unsupported type <class 'numpy.ndarray'>")
    if isinstance(x, tuple):
        return tuple(un(e, strict) for e in x)
    if isinstance(x, list):
        return [un(e, strict) for e in x]
    return x


_COMPLEX = (list, tuple)


def wr(x):
    if isinstance(x, CArr) or x is None or isinstance(x, (str, types.ModuleType)):
        return x
    if isinstance(x, _COMPLEX):
        return type(x)(wr(e) for e in x)
    return CArr(x)


class CArr:
    """cupy.ndarray"""
    __array_priority__ = 1e9

    def __init__(self, h):
        if not isinstance(h, np.ndarray):
            h = snp.to_sarr(h) if E.is_sym(h) else np.asarray(h)
            if not E.is_sym(h) and h.dtype == object:
                h = snp.to_sarr(h[()])
        self.h = h

    def get(self, *a, **k):
        return self.h.copy()

    # implicit conversion is refused
    def __array__(self, *a, **k):
        raise TypeError('Implicit conversion to a NumPy array is not allowed. Please use `.get()` to construct a NumPy array explicitly.')

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if any(is_host(x) for x in inputs):
            raise TypeError("Unsupported type <class 'numpy.ndarray'>")
        if out is not None:
            if any(not isinstance(o, CArr) for o in out):
                raise TypeError('operand is not a cupy array')
            kw['out'] = tuple(o.h for o in out)
        r = getattr(ufunc, method)(*[un(x) for x in inputs], **{k: un(v) for k, v in kw.items()})
        return out[0] if out is not None and len(out) == 1 else wr(r)

    def __array_function__(self, func, types_, args, kw):
        return devcall(func.__name__, func, args, kw)

    shape = property(lambda s: s.h.shape)
    ndim = property(lambda s: s.h.ndim)
    size = property(lambda s: s.h.size)
    dtype = property(lambda s: s.h.dtype)
    itemsize = property(lambda s: s.h.itemsize)
    nbytes = property(lambda s: s.h.nbytes)
    flags = property(lambda s: s.h.flags)
    strides = property(lambda s: s.h.strides)
    T = property(lambda s: CArr(s.h.T))
    device = property(lambda s: None)

    def _v(self):
        if self.h.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous.')
        return snp.raw(self.h).reshape(-1)[0] if isinstance(self.h, snp.SArr) else self.h.reshape(-1)[0]

    def item(self, *a):
        return self.h.item(*a) if a else (self._v() if isinstance(self.h, snp.SArr) else self.h.item())

    def __bool__(self):
        return bool(self._v())

    def __float__(self):
        v = self._v()
        return float(v)

    def __int__(self):
        return int(self._v())

    def __index__(self):
        return self._v().__index__()

    def __len__(self):
        return len(self.h)

    def __iter__(self):
        return (CArr(self.h[i]) for i in range(len(self.h)))

    def __getitem__(self, k):
        return CArr(self.h[un(k)])

    def __setitem__(self, k, v):
        if is_host(v):
            raise TypeError("Unsupported type <class 'numpy.ndarray'>")
        self.h[un(k)] = un(v)

    def __repr__(self):
        return f'CArr({self.h!r})'

    def __deepcopy__(self, memo):
        return CArr(self.h.copy())

    def astype(self, dt, copy=True, **k):
        return CArr(self.h.astype(dt))

    def __neg__(self):
        return CArr(-self.h)

    def __invert__(self):
        return CArr(~self.h)

    def __abs__(self):
        return CArr(abs(self.h))

    def __hash__(self):
        raise TypeError("unhashable type: 'ndarray'")


def _bin(n):
    def f(self, o):
        if is_host(o):
            raise TypeError("Unsupported type <class 'numpy.ndarray'>")
        if not isinstance(o, (CArr, np.ndarray, np.generic, int, float, bool)) and not E.is_sym(o):
            return NotImplemented
        return wr(getattr(self.h, n)(un(o)))
    return f


def _ibin(n):
    def f(self, o):
        if is_host(o):
            raise TypeError("Unsupported type <class 'numpy.ndarray'>")
        r = getattr(self.h, n)(un(o))
        self.h = r
        return self
    return f


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'and', 'or', 'xor', 'matmul', 'lshift', 'rshift'):
    setattr(CArr, f'__{_n}__', _bin(f'__{_n}__'))
    setattr(CArr, f'__r{_n}__', _bin(f'__r{_n}__'))
    setattr(CArr, f'__i{_n}__', _ibin(f'__i{_n}__'))
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(CArr, f'__{_n}__', _bin(f'__{_n}__'))


def _meth(n):
    def f(self, *a, **k):
        if any(has_host(x) for x in a):
            raise TypeError("Unsupported type <class 'numpy.ndarray'>")
        return wr(getattr(self.h, n)(*[un(x) for x in a], **{q: un(v) for q, v in k.items()}))
    return f


for _n in ('sum', 'prod', 'min', 'max', 'any', 'all', 'mean', 'cumsum', 'argmin', 'argmax', 'argsort', 'reshape', 'swapaxes', 'transpose',
           'ravel', 'flatten', 'copy', 'dot', 'clip', 'take', 'squeeze', 'repeat', 'nonzero', 'conj', 'view'):
    setattr(CArr, _n, _meth(_n))


def _inpl(n):
    def f(self, *a, **k):
        getattr(self.h, n)(*[un(x) for x in a], **k)
    return f


for _n in ('fill', 'sort'):
    setattr(CArr, _n, _inpl(_n))


def devcall(name, func, args, kw):
    """a numpy function on device arrays"""
    if name in HOSTONLY:
        raise TypeError('Implicit conversion to a NumPy array is not allowed.')
    if name not in ('take', 'compress') and (any(has_host(a) for a in args) or any(has_host(a) for a in kw.values())):
        raise TypeError("Unsupported type <class 'numpy.ndarray'>")
    return wr(func(*[un(a) for a in args], **{k: un(v) for k, v in kw.items()}))


class NpProxy(types.ModuleType):
    """the symbolic numpy, dispatching to the device when given device arrays"""

    def __init__(self):
        super().__init__('numpy')

    def __getattr__(self, n):
        v = getattr(snp.NP, n)
        if isinstance(v, type) or not callable(v):
            return v

        def f(*a, **k):
            if any(has_dev(x) for x in a) or any(has_dev(x) for x in k.values()):
                return devcall(n, v, a, k)
            return v(*a, **k)
        for s in ('reduce', 'accumulate', 'outer', 'at'):
            if hasattr(v, s):
                setattr(f, s, getattr(v, s))
        return f


class Cupy(types.ModuleType):
    def __init__(self, ctx, ngpu=1):
        super().__init__('cupy')
        self.ctx, self.symbolic = ctx, ctx.symbolic
        self.xp = snp.NP if ctx.symbolic else np
        self.ndarray = CArr
        self.launches = 0
        self.free = 16 << 30
        me = self
        self.linalg = types.SimpleNamespace(solve=self._solve, norm=lambda *a, **k: devcall('norm', self.xp.linalg.norm, a, k))
        pool = types.SimpleNamespace(free_all_blocks=lambda *a: None, used_bytes=lambda: 0, total_bytes=lambda: 0)
        self.get_default_memory_pool = lambda: pool
        self.is_available = lambda: ngpu > 0

        class Device:
            def __init__(self, i=0):
                self.id = i
                self.mem_info = (me.free, 32 << 30)

            def use(self):
                pass

            def synchronize(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass
        stream = types.SimpleNamespace(synchronize=lambda: None)
        self.cuda = types.SimpleNamespace(Device=Device, Stream=types.SimpleNamespace(null=stream), get_current_stream=lambda: stream,
                                          runtime=types.SimpleNamespace(getDeviceCount=lambda: ngpu, getDevice=lambda: 0,
                                                                        deviceGetPCIBusId=lambda n: '00', deviceSynchronize=lambda: None))

        class RawKernel:
            def __init__(self, code, name, *a, **k):
                self.code, self.name = code, name

            def __call__(self, grid, block, args, **k):
                for a in args:
                    if is_host(a):
                        raise TypeError("Unsupported type <class 'numpy.ndarray'>")
                me.launches += 1
                try:
                    llir.Launch(self.code, self.name, me.symbolic).run(grid, block, [un(a) for a in args])
                except llir.KernelError as e:
                    me.ctx.fail('kernels stay inside their arrays, free of races and type confusion', f'{self.name}: {e}')
                    raise

        class RawModule:
            def __init__(self, code=None, *a, **k):
                self.code = code

            def get_function(self, name):
                return RawKernel(self.code, name)
        self.RawKernel, self.RawModule = RawKernel, RawModule

    def _dt(self, x, dtype):
        if dtype is not None:
            return self.xp.asarray(x, dtype=dtype)
        return self.xp.asarray(x)

    def asarray(self, x, dtype=None, order=None, **k):
        if isinstance(x, CArr):
            return x if dtype is None or np.dtype(dtype) == np.dtype(x.dtype) else CArr(x.h.astype(dtype))
        return self.array(x, dtype)

    asanyarray = asarray

    def array(self, x, dtype=None, copy=True, order='K', **k):
        r = self._dt(un(x), dtype)
        if isinstance(r, np.ndarray) and r.dtype == object:
            raise ValueError('Unsupported dtype object')
        if isinstance(r, np.ndarray) and r.dtype.kind in 'US':
            raise ValueError('Unsupported dtype ' + str(r.dtype))
        return CArr(r.copy() if isinstance(r, np.ndarray) else r)

    def asnumpy(self, x, **k):
        return x.get() if isinstance(x, CArr) else self.xp.asarray(x)

    def ascontiguousarray(self, x, dtype=None):
        if isinstance(x, CArr):
            h = x.h if dtype is None else x.h.astype(dtype)
            return CArr(h.copy(order='C') if not self.symbolic else snp.mk(np.ascontiguousarray(snp.raw(h)), h._sdt))
        return self.array(x, dtype)

    def atleast_1d(self, x):
        x = self.asarray(x)
        return x if x.ndim else CArr(x.h.reshape(1))

    def isscalar(self, x):
        return not isinstance(x, CArr) and self.xp.isscalar(x)

    def tile(self, A, reps):
        return CArr(self.xp.tile(un(A), tuple(int(r) for r in reps) if isinstance(reps, tuple) else reps))

    def outer(self, a, b):
        return devcall('outer', self.xp.outer, (a, b), {})

    def _empty(self, shape, dtype=None, order='C', **k):
        r = self.xp.empty(shape, dtype=dtype if dtype is not None else float)
        if not self.symbolic and r.dtype.kind == 'f':
            r[...] = np.nan
        return CArr(r)

    def _solve(self, M, y):
        if not isinstance(M, CArr) or not isinstance(y, CArr):
            raise TypeError("Unsupported type <class 'numpy.ndarray'>")
        try:
            with np.errstate(all='ignore'):
                return CArr(self.xp.linalg.solve(M.h, y.h))
        except np.linalg.LinAlgError:
            raise Singular()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n == 'empty':
            return self._empty
        v = getattr(self.__dict__['xp'], n)
        if not callable(v) or isinstance(v, type):
            return v
        creation = n in ('zeros', 'ones', 'full', 'arange', 'linspace', 'eye', 'identity')

        def f(*a, **k):
            if not creation and (any(has_host(x) for x in a) or any(has_host(x) for x in k.values())):
                raise TypeError("Unsupported type <class 'numpy.ndarray'>")
            return wr(v(*[un(x) for x in a], **{q: un(w) for q, w in k.items()}))
        return f


class Singular(Exception):
    """cupy returns garbage for a singular system; outside the compared domain"""


def install(ctx, ngpu=1):
    cp = Cupy(ctx, ngpu)
    ctx.shim('cupy', cp)
    ctx.shim('cupyx', NS('cupyx', None))
    if ctx.symbolic:
        ctx.shim('numpy', NpProxy())
    return cp
