"""numpy shim: an ndarray subclass holding symbolic scalars, and a stand-in for the
numpy module namespace used by the code under test."""
import builtins
import functools
import math
import types
from fractions import Fraction

import numpy as np

from . import engine as E
from .engine import (Sym, SymBool, SymBV, SymInt, SymReal, Unsupported, is_sym, ite,
                     norm_scalar, s_and, s_not, s_or, special)

OBJ = np.dtype(object)
F8, I8, B1 = np.dtype('f8'), np.dtype('i8'), np.dtype(bool)


def raw(x):
    """view as a plain object ndarray"""
    return np.ndarray.view(x, np.ndarray) if isinstance(x, SArr) else x


def has_sym(x):
    if isinstance(x, SArr):
        return True
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == OBJ and any(is_sym(e) for e in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    if isinstance(x, dict):
        return any(has_sym(e) for e in x.values())
    return False


def scalar_dtype(x):
    x = norm_scalar(x)
    if isinstance(x, (SymBool, bool)):
        return B1
    if isinstance(x, (SymInt, SymBV, int)):
        return I8
    if isinstance(x, (SymReal, float, Fraction)):
        return F8
    if isinstance(x, str):
        return np.dtype(f'<U{max(1, len(x))}')
    if isinstance(x, bytes):
        return np.dtype(f'S{max(1, len(x))}')
    return OBJ


def vdtype(x):
    if isinstance(x, SArr):
        return x._sdt
    if isinstance(x, np.ndarray):
        if x.dtype == OBJ:
            return _infer(x)
        return x.dtype
    return scalar_dtype(x)


def _infer(o):
    dt = None
    for e in o.flat:
        d = scalar_dtype(e)
        if d == OBJ:
            return OBJ
        dt = d if dt is None else _promote(dt, d)
    return F8 if dt is None else dt


def _promote(*dts):
    dts = [d for d in dts if d is not None]
    if any(d == OBJ for d in dts):
        return OBJ
    return functools.reduce(np.promote_types, dts)


def cast_scalar(x, dt):
    dt = norm_dtype(dt)
    x = norm_scalar(x)
    k = dt.kind if dt is not None else 'O'
    if k == 'f':
        if isinstance(x, SymReal):
            return SymReal(Fraction(float(np.float32(float(x.v))))) if x.const and dt.itemsize == 4 and abs(x.v) < 1e38 else x
        if isinstance(x, Sym):
            return SymReal.lift(x)
        if isinstance(x, Fraction):
            return cast_scalar(SymReal(x), dt)
        if isinstance(x, str) or x is None:
            return float(x) if x is not None else float('nan')
        if isinstance(x, (int, float, bool)):
            return float(np.float32(x)) if dt.itemsize == 4 else float(x)
        if isinstance(x, np.ndarray) and x.size == 1:
            return cast_scalar(x.item(), dt)
        return x
    if k in 'iu':
        if isinstance(x, SymInt):
            return narrow(x, dt)
        if isinstance(x, SymBV):
            return x
        if isinstance(x, SymBool):
            return x.as_int()
        if isinstance(x, SymReal):
            return narrow(x.to_int(), dt)
        if isinstance(x, np.ndarray) and x.size == 1:
            return cast_scalar(x.item(), dt)
        if isinstance(x, float) and special(x):
            return -2**63
        return narrow(int(x), dt)
    if k == 'b':
        if isinstance(x, SymBool):
            return x
        if isinstance(x, Sym):
            return x != 0
        return bool(x)
    if k in 'US':
        if isinstance(x, Sym):
            return str(x)
        if k == 'U':
            x = x.decode('ascii') if isinstance(x, bytes) else str(x)
            return x[:dt.itemsize // 4] if dt.itemsize else x
        x = x if isinstance(x, bytes) else str(x).encode('ascii')
        return x[:dt.itemsize] if dt.itemsize else x
    return x


def narrow(x, dt):
    """wrap-around of integer types below 64 bits"""
    n = 8 * dt.itemsize
    if n >= 64 or isinstance(x, bool):
        return x
    lo, hi = (0, 2**n - 1) if dt.kind == 'u' else (-2**(n - 1), 2**(n - 1) - 1)
    if not is_sym(x):
        return (x - lo) % 2**n + lo
    return ite(s_and(x >= lo, x <= hi), x, (x - lo) % 2**n + lo)


def norm_dtype(dt):
    if dt is None:
        return None
    if isinstance(dt, np.dtype):
        return dt
    if dt is builtins.float or getattr(dt, '_shim_of', None) is builtins.float:
        return F8
    if dt is builtins.int or getattr(dt, '_shim_of', None) is builtins.int:
        return I8
    if dt is builtins.bool:
        return B1
    return np.dtype(dt)


def mk(o, sdt=None):
    """object ndarray -> SArr"""
    if not isinstance(o, np.ndarray) or o.dtype != OBJ:
        o = np.asarray(o)
        if o.dtype != OBJ:
            sdt = sdt or o.dtype
            oo = np.empty(o.shape, dtype=object)
            for i in np.ndindex(o.shape):
                oo[i] = norm_scalar(o[i])
            o = oo
    o = raw(o)
    r = o.view(SArr)
    r._sdt = norm_dtype(sdt) if sdt is not None else _infer(o)
    return r


def from_concrete(a):
    return mk(a, a.dtype)


def to_sarr(x, dtype=None):
    """anything array-like -> SArr (new or same object)"""
    dtype = norm_dtype(dtype)
    if isinstance(x, SArr):
        if dtype is None or dtype == x._sdt:
            return x
        return x.astype(dtype)
    if isinstance(x, np.ndarray):
        r = mk(x) if x.dtype == OBJ else from_concrete(x)
        return r if dtype is None or dtype == r._sdt else r.astype(dtype)
    if isinstance(x, (list, tuple)):
        parts = [raw(to_obj(e)) for e in x]
        if not parts:
            return mk(np.empty((0,), dtype=object), dtype or F8)
        shp = parts[0].shape
        if any(p.shape != shp for p in parts):
            raise ValueError('setting an array element with a sequence. The requested array has an '
                             'inhomogeneous shape after 1 dimensions.')
        o = np.empty((len(parts),) + shp, dtype=object)
        for i, p in enumerate(parts):
            if shp == ():
                o[i] = p.item() if p.dtype != OBJ else p[()]
            else:
                o[i] = p
        dts = [vdtype(e) if isinstance(e, np.ndarray) else None for e in x]
        sdt = _promote(*dts) if all(d is not None for d in dts) else None
        r = mk(o, sdt)
        return r if dtype is None or dtype == r._sdt else r.astype(dtype)
    o = np.empty((), dtype=object)
    o[()] = norm_scalar(x)
    r = mk(o)
    return r if dtype is None or dtype == r._sdt else r.astype(dtype)


def to_obj(x):
    if isinstance(x, np.ndarray):
        if x.dtype == OBJ:
            return x
        return from_concrete(x)
    if isinstance(x, (list, tuple)):
        return to_sarr(x)
    if hasattr(x, '__array__') and not is_sym(x) and not isinstance(x, np.generic):
        return to_obj(np.asarray(x))
    o = np.empty((), dtype=object)
    o[()] = norm_scalar(x)
    return o


def _s(o, sdt):
    """result: 0-d -> scalar"""
    if isinstance(o, np.ndarray):
        if o.ndim == 0:
            return fin_scalar(o[()])
        return demote(mk(o, sdt))
    return fin_scalar(o)


def fin_scalar(x):
    x = norm_scalar(x)
    if isinstance(x, bool):
        return np.bool_(x)
    if isinstance(x, int):
        return np.int64(x) if -2**63 <= x < 2**63 else x
    if isinstance(x, float):
        return np.float64(x)
    return x


def demote(a):
    """bool/int arrays with only concrete elements become real numpy arrays"""
    if a._sdt.kind in 'biuUS' and not any(is_sym(e) for e in raw(a).flat):
        return np.array(raw(a).tolist(), dtype=a._sdt).reshape(a.shape).view(PArr)
    return a


# ---------------------------------------------------------------- element ops

def nanp(x):
    return isinstance(x, float) and x != x


def e_div(a, b):
    a, b = SymReal.lift(a), SymReal.lift(b)
    return SymReal.div(a, b)


def cmpw(op):
    def f(a, b):
        a, b = norm_scalar(a), norm_scalar(b)
        if isinstance(a, float) and is_sym(b) and not isinstance(b, SymReal):
            b = SymReal.lift(b)
        r = op(a, b)
        return r
    return f


def e_max(a, b):
    if nanp(a):
        return a
    if nanp(b):
        return b
    return ite(a >= b, a, b)


def e_min(a, b):
    if nanp(a):
        return a
    if nanp(b):
        return b
    return ite(a <= b, a, b)


def e_sign(a):
    return ite(a > 0, 1.0, ite(a < 0, -1.0, 0.0)) if is_sym(a) else float(np.sign(a))


def e_floor(a):
    return a.floor() if isinstance(a, SymReal) else (a if isinstance(a, Sym) else float(np.floor(a)))


def e_ceil(a):
    return a.ceil() if isinstance(a, SymReal) else (a if isinstance(a, Sym) else float(np.ceil(a)))


def e_trunc(a):
    return a.trunc() if isinstance(a, SymReal) else (a if isinstance(a, Sym) else float(np.trunc(a)))


def round_(a, decimals=0, out=None):
    # numpy scales, rounds to the nearest even integer and scales back
    r = ew('rint', e_rint, (a * 10 ** decimals if decimals else a,))
    r = r / 10 ** decimals if decimals else r
    if out is not None:
        out[...] = r
        return out
    return r


def e_rint(a):
    if isinstance(a, SymReal):
        if a.const:
            return SymReal(Fraction(round(a.v)))
        f = (a + SymReal(Fraction(1, 2))).floor()
        # round half to even
        half = (a + SymReal(Fraction(1, 2))) == f
        if bool(half) if is_sym(half) else half:
            return ite((f / 2).is_integer(), f, f - 1)
        return f
    return a if isinstance(a, Sym) else float(np.rint(a))


def e_pow(a, b):
    a, b = norm_scalar(a), norm_scalar(b)
    if not is_sym(a) and not is_sym(b):
        return norm_scalar(np.power(a, b))
    if not is_sym(a):
        a = SymReal.lift(a)
        if special(a):
            raise Unsupported('pow of a special value')
    return a ** b


def mathf(name, conc):
    def f(a):
        a = norm_scalar(a)
        if isinstance(a, SymReal) and a.const is False or isinstance(a, (SymInt, SymBV, SymBool)):
            return getattr(SymReal.lift(a), name)()
        if isinstance(a, SymReal):
            return getattr(a, name)()
        with np.errstate(all='ignore'):
            return norm_scalar(conc(a))
    return f


def e_not(a):
    return s_not(truth(a))


def truth(a):
    a = norm_scalar(a)
    if isinstance(a, (SymBool, bool)):
        return a
    if is_sym(a):
        return a != 0
    return bool(a)


def e_invert(a):
    a = norm_scalar(a)
    if isinstance(a, bool):
        return not a
    return ~a


def e_fdiv(a, b):
    a, b = norm_scalar(a), norm_scalar(b)
    if not is_sym(a) and not is_sym(b):
        return norm_scalar(np.floor_divide(a, b))
    return a // b


def e_mod(a, b):
    a, b = norm_scalar(a), norm_scalar(b)
    if not is_sym(a) and not is_sym(b):
        return norm_scalar(np.mod(a, b))
    return a % b


def boolish(f):
    def g(a, b):
        a, b = norm_scalar(a), norm_scalar(b)
        return f(a, b)
    return g


def e_add(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return s_or(a, b)
    return a + b


def e_mul(a, b):
    return a * b


def e_sub(a, b):
    return a - b


def e_close(a, b, rtol=1e-5, atol=1e-8):
    return abs(a - b) <= atol + rtol * abs(b)


import operator as _op

def e_heaviside(a, b):
    return ite(a < 0, 0.0, ite(a > 0, 1.0, b))


def e_copysign(a, b):
    return ite(b < 0, -abs(a), abs(a))


BIN = {
    'heaviside': e_heaviside, 'copysign': e_copysign,
    'add': e_add, 'subtract': e_sub, 'multiply': e_mul, 'divide': e_div, 'true_divide': e_div,
    'floor_divide': e_fdiv, 'remainder': e_mod, 'mod': e_mod, 'power': e_pow, 'float_power': e_pow,
    'less': cmpw(_op.lt), 'less_equal': cmpw(_op.le), 'greater': cmpw(_op.gt),
    'greater_equal': cmpw(_op.ge), 'equal': cmpw(_op.eq), 'not_equal': cmpw(_op.ne),
    'logical_and': lambda a, b: s_and(truth(a), truth(b)),
    'logical_or': lambda a, b: s_or(truth(a), truth(b)),
    'logical_xor': lambda a, b: truth(a) != truth(b),
    'bitwise_and': boolish(_op.and_), 'bitwise_or': boolish(_op.or_), 'bitwise_xor': boolish(_op.xor),
    'left_shift': _op.lshift, 'right_shift': _op.rshift,
    'maximum': e_max, 'minimum': e_min,
    'fmax': lambda a, b: b if nanp(a) else (a if nanp(b) else e_max(a, b)),
    'fmin': lambda a, b: b if nanp(a) else (a if nanp(b) else e_min(a, b)),
    'hypot': lambda a, b: mathf('sqrt', np.sqrt)(a * a + b * b),
}
UN = {
    'negative': lambda a: -a, 'positive': lambda a: a, 'absolute': abs, 'fabs': abs, 'abs': abs,
    'sqrt': mathf('sqrt', np.sqrt), 'exp': mathf('exp', np.exp), 'log': mathf('log', np.log),
    'log1p': mathf('log1p', np.log1p), 'expm1': mathf('expm1', np.expm1), 'log10': mathf('log10', np.log10),
    'log2': mathf('log2', np.log2),
    'square': lambda a: a * a, 'reciprocal': lambda a: e_div(1.0, a),
    'sign': e_sign, 'floor': e_floor, 'ceil': e_ceil, 'trunc': e_trunc, 'rint': e_rint,
    'logical_not': e_not, 'invert': e_invert, 'bitwise_not': e_invert,
    'isnan': lambda a: nanp(norm_scalar(a)),
    'isinf': lambda a: isinstance(norm_scalar(a), float) and norm_scalar(a) in (E.INF, -E.INF),
    'isfinite': lambda a: not special(norm_scalar(a)),
    'conjugate': lambda a: a,
    'signbit': lambda a: lib_signbit(norm_scalar(a)),
}
BOOLRES = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and',
           'logical_or', 'logical_xor', 'logical_not', 'isnan', 'isinf', 'isfinite', 'signbit'}
FLOATRES = {'divide', 'true_divide', 'sqrt', 'exp', 'log', 'log1p', 'expm1', 'log10', 'log2', 'hypot', 'float_power', 'reciprocal'}
IDENT = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False, 'bitwise_or': 0,
         'bitwise_and': -1, 'bitwise_xor': 0}


def res_dtype(name, args):
    if name in BOOLRES:
        return B1
    if name in FLOATRES:
        return F8
    dts = [vdtype(a) if isinstance(a, np.ndarray) else scalar_dtype(a) for a in args]
    try:
        return _promote(*dts)
    except TypeError:
        return OBJ


def ew(name, fn, args, out=None, where=True):
    sdt = res_dtype(name, args)
    if name in ('bitwise_and', 'bitwise_or', 'bitwise_xor', 'invert') and all(d == B1 for d in
                                                                               [vdtype(to_obj(a)) for a in args]):
        sdt = B1
    objs = [raw(to_obj(a)) for a in args]
    bc = np.broadcast_arrays(*objs) if len(objs) > 1 else objs
    shp = bc[0].shape
    res = np.empty(shp, dtype=object)
    for i in np.ndindex(shp):
        if where is not True:
            w = np.broadcast_to(np.asarray(raw(where)), shp)[i]
            if not bool(w):
                if out is not None:
                    res[i] = raw(out)[i]
                else:
                    res[i] = 0.0
                continue
        res[i] = norm_scalar(fn(*[norm_scalar(b[i]) for b in bc]))
    if sdt == I8 and any(isinstance(e, (float, SymReal)) for e in res.flat):
        sdt = F8
    if sdt == F8:
        for i in np.ndindex(shp):
            e = res[i]
            if isinstance(e, (int, bool)):
                res[i] = float(e)
            elif isinstance(e, (SymInt, SymBool, SymBV)):
                res[i] = SymReal.lift(e)
    if out is not None:
        if isinstance(out, tuple):
            out = out[0]
        assign(out, Ellipsis, mk(res, sdt) if res.ndim else res[()])
        return out
    return _s(res, sdt)


def assign(target, key, value):
    if isinstance(target, SArr):
        target[key] = value
        return
    # real ndarray receiving values
    v = raw(to_obj(value))
    if any(is_sym(e) and not (isinstance(e, SymReal) and e.const) for e in v.flat):
        raise Unsupported('symbolic value stored into a native numpy array')
    target[key] = np.array([float(e) if target.dtype.kind == 'f' else norm_scalar(e) for e in v.flat],
                           dtype=target.dtype).reshape(v.shape)


def reduce_(name, fn, a, axis=None, keepdims=False, initial=None, where=True, dtype=None):
    a = to_obj(a)
    sd = vdtype(a)
    o = raw(a)
    if where is not True:
        w = np.broadcast_to(raw(to_obj(where)), o.shape)
        oo = np.empty(o.shape, dtype=object)
        idn = IDENT.get(name)
        for i in np.ndindex(o.shape):
            oo[i] = ite(truth(w[i]), o[i], initial if idn is None else (float(idn) if sd == F8 else idn))
        o = oo
    if name == 'add' and sd == B1:
        oo = np.empty(o.shape, dtype=object)
        for i in np.ndindex(o.shape):
            oo[i] = o[i].as_int() if isinstance(o[i], SymBool) else int(o[i])
        o = oo
        sd = I8
    rsd = B1 if name in BOOLRES else (norm_dtype(dtype) or sd)
    if axis is None:
        axes = tuple(range(o.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(x % o.ndim for x in axis)
    else:
        axes = (int(axis) % max(o.ndim, 1),)
    keep = [i for i in range(o.ndim) if i not in axes]
    t = o.transpose(keep + [i for i in range(o.ndim) if i in axes]) if o.ndim else o
    shp = tuple(o.shape[i] for i in keep)
    n = int(np.prod([o.shape[i] for i in axes])) if o.ndim else 1
    t = t.reshape(shp + (n,))
    res = np.empty(shp, dtype=object)
    for i in np.ndindex(shp):
        items = list(t[i])
        if initial is not None and where is True:
            items = [initial] + items
        if not items:
            if name in IDENT:
                acc = IDENT[name]
                acc = float(acc) if rsd == F8 else acc
            else:
                raise ValueError(f'zero-size array to reduction operation {name} which has no identity')
        else:
            acc = items[0]
            if name in ('logical_and', 'logical_or'):
                acc = s_and(*[truth(x) for x in items]) if name == 'logical_and' else \
                    s_or(*[truth(x) for x in items])
            else:
                for x in items[1:]:
                    acc = fn(acc, x)
        res[i] = norm_scalar(acc)
    if keepdims:
        res = res.reshape(tuple(1 if i in axes else o.shape[i] for i in range(o.ndim)))
    return _s(res, rsd)


def accumulate_(name, fn, a, axis=0):
    a = to_obj(a)
    o = np.moveaxis(raw(a), axis, 0).copy()
    for i in range(1, o.shape[0]):
        for j in np.ndindex(o.shape[1:]):
            o[(i,) + j] = fn(o[(i - 1,) + j], o[(i,) + j])
    sd = vdtype(a)
    if sd == B1 and name == 'add':
        sd = I8
        for j in np.ndindex(o.shape):
            x = o[j]
            o[j] = int(x) if isinstance(x, bool) else (x.as_int() if isinstance(x, SymBool) else x)
    return demote(mk(np.moveaxis(o, 0, axis), sd))


def matmul(a, b):
    a, b = raw(to_obj(a)), raw(to_obj(b))
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1:
        a = a[None, :]
    if b1:
        b = b[:, None]
    if a.shape[-1] != b.shape[-2]:
        raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension 0')
    shp = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, shp + a.shape[-2:])
    b = np.broadcast_to(b, shp + b.shape[-2:])
    r = np.empty(shp + (a.shape[-2], b.shape[-1]), dtype=object)
    for i in np.ndindex(r.shape):
        acc = None
        pa, pb = a[i[:-2] + (i[-2],)], b[i[:-2] + (slice(None), i[-1])]
        for x, y in zip(pa, pb):
            p = x * y
            acc = p if acc is None else acc + p
        r[i] = 0.0 if acc is None else acc
    if a1:
        r = r[..., 0, :]
    if b1:
        r = r[..., 0]
    return _s(r, None) if r.ndim else fin_scalar(r[()])


def dot(a, b):
    oa, ob = to_obj(a), to_obj(b)
    if oa.ndim == 0 or ob.ndim == 0:
        return ew('multiply', e_mul, (a, b))
    if ob.ndim <= 2 and oa.ndim <= 2 or ob.ndim == 1:
        if oa.shape[-1] != (ob.shape[0]):
            raise ValueError(f'shapes {oa.shape} and {ob.shape} not aligned')
        return matmul(oa, ob)
    r = np.tensordot(raw(oa), raw(ob), axes=([-1], [-2]))
    return mk(r)


# ---------------------------------------------------------------- sorting

def _lt(a, b):
    """strict order with nan last, as numpy sorts"""
    if nanp(a):
        return False
    if nanp(b):
        return True
    return bool(a < b)


def argsort1(vals):
    """stable merge sort on possibly symbolic values (forks on comparisons)"""
    def ms(ix):
        if len(ix) <= 1:
            return ix
        m = len(ix) // 2
        l, r = ms(ix[:m]), ms(ix[m:])
        out, i, j = [], 0, 0
        while i < len(l) and j < len(r):
            if _lt(vals[r[j]], vals[l[i]]):
                out.append(r[j]); j += 1
            else:
                out.append(l[i]); i += 1
        return out + l[i:] + r[j:]
    return ms(list(range(len(vals))))


def argsort(a, axis=-1, kind=None, order=None, stable=None):
    a = to_obj(a)
    o = raw(a)
    if axis is None:
        o = o.reshape(-1)
        axis = 0
    if o.ndim == 0:
        return np.zeros((1,), dtype=int)
    m = np.moveaxis(o, axis, -1)
    res = np.empty(m.shape, dtype=int)
    for i in np.ndindex(m.shape[:-1]):
        vals = [norm_scalar(x) for x in m[i]]
        ix = argsort1(vals)
        if kind not in ('stable', 'mergesort') and not stable:
            ix = E.engine().tie_order(vals, ix) if hasattr(E.engine(), 'tie_order') else ix
        res[i] = ix
    return np.moveaxis(res, -1, axis)


def sort_arr(a, axis=-1):
    a = to_obj(a)
    if axis is None:
        a = mk(raw(a).reshape(-1), vdtype(a))
        axis = 0
    ix = argsort(a, axis, kind='stable')
    return mk(np.take_along_axis(raw(a), ix, axis), vdtype(a))


def lexsort(keys, axis=-1):
    keys = [raw(to_obj(k)) for k in keys]
    k0 = keys[0]
    m = [np.moveaxis(k, axis, -1) for k in keys]
    res = np.empty(m[0].shape, dtype=int)
    for i in np.ndindex(m[0].shape[:-1]):
        ix = list(range(m[0].shape[-1]))
        for k in m:
            vals = [norm_scalar(x) for x in k[i]]
            sub = [vals[j] for j in ix]
            ix = [ix[j] for j in argsort1(sub)]
        res[i] = ix
    return np.moveaxis(res, -1, axis)


def argext(a, axis, sign):
    a = to_obj(a)
    o = raw(a)

    def best(vals):
        if not len(vals):
            raise ValueError('attempt to get argmin of an empty sequence')
        b = 0
        for j, v in enumerate(vals):
            v = norm_scalar(v)
            if nanp(v):
                return j
        for j in range(1, len(vals)):
            x, y = norm_scalar(vals[j]), norm_scalar(vals[b])
            if bool(x < y) if sign < 0 else bool(x > y):
                b = j
        return b
    if axis is None:
        return np.int64(best(list(o.reshape(-1))))
    m = np.moveaxis(o, axis, -1)
    res = np.empty(m.shape[:-1], dtype=int)
    for i in np.ndindex(res.shape):
        res[i] = best(list(m[i]))
    return res if res.ndim else np.int64(res[()])


def nonzero(a):
    a = to_obj(a)
    o = raw(a)
    m = np.empty(o.shape, dtype=bool)
    for i in np.ndindex(o.shape):
        m[i] = bool(truth(o[i]))
    return np.nonzero(m)


def conc_index(k):
    """make an index usable by numpy: forks on symbolic masks / indices"""
    if isinstance(k, tuple):
        return tuple(conc_index(x) for x in k)
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, (SymInt, SymBV)):
        return int(k)
    if isinstance(k, slice):
        return slice(*[None if x is None else (int(x) if is_sym(x) else x) for x in (k.start, k.stop, k.step)])
    if isinstance(k, SArr):
        o = raw(k)
        if k._sdt == B1:
            m = np.empty(o.shape, dtype=bool)
            for i in np.ndindex(o.shape):
                m[i] = bool(o[i])
            return m
        if k._sdt.kind in 'iu':
            m = np.empty(o.shape, dtype=int)
            for i in np.ndindex(o.shape):
                m[i] = int(o[i])
            return m
        if o.size == 0:
            return np.zeros(o.shape, dtype=int)
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    if isinstance(k, list) and any(is_sym(x) for x in k):
        return [conc_index(x) for x in k]
    return k


SHARED = {}          # id -> array in (modelled) shared memory


class PArr(np.ndarray):
    """native bool/int array that accepts symbolic masks and indices (by forking)"""

    def __getitem__(self, k):
        return np.ndarray.__getitem__(self, conc_index(k))

    def __setitem__(self, k, v):
        if has_sym(v) and not (isinstance(v, SArr) and not any(is_sym(e) for e in raw(v).flat)):
            raise Unsupported('symbolic value stored into a native array')
        np.ndarray.__setitem__(self, conc_index(k), nat(v))


class SArr(np.ndarray):
    _sdt = F8
    __array_priority__ = 1e7

    def __array_finalize__(self, obj):
        if obj is not None:
            self._sdt = getattr(obj, '_sdt', F8)

    @property
    def dtype(self):
        return self._sdt

    @dtype.setter
    def dtype(self, v):
        raise Unsupported('setting dtype')

    @property
    def itemsize(self):
        return self._sdt.itemsize

    @property
    def nbytes(self):
        return self._sdt.itemsize * self.size

    @property
    def T(self):
        return mk(raw(self).T, self._sdt)

    # -- dispatch
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, where=True, **kw):
        name = ufunc.__name__
        if any(not isinstance(x, (np.ndarray, np.generic, int, float, bool, str, Sym, list, tuple, Fraction))
               and hasattr(x, '__array_ufunc__') for x in inputs):
            return NotImplemented
        if name == 'matmul':
            r = matmul(*inputs)
            if out is not None:
                assign(out[0], Ellipsis, r)
                return out[0]
            return r
        fn = BIN.get(name) or UN.get(name)
        if fn is None:
            if all(not any(is_sym(e) for e in raw(to_obj(x)).flat) for x in inputs):
                args = [nat(x) for x in inputs]
                r = getattr(ufunc, method)(*args, **kw)
                return wrapres(r)
            raise Unsupported(f'ufunc {name}')
        if method == '__call__':
            r = ew(name, fn, inputs, out=out[0] if out else None, where=where)
            dt = kw.get('dtype')
            if dt is not None and isinstance(r, SArr):
                r = r.astype(dt)
            return r
        if method == 'reduce':
            ax = kw.get('axis', 0)
            r = reduce_(name, fn, inputs[0], ax, kw.get('keepdims', False),
                        kw.get('initial', None) if kw.get('initial', None) is not np._NoValue else None, where,
                        kw.get('dtype'))
            if out is not None and out[0] is not None:
                assign(out[0], Ellipsis, r)
                return out[0]
            return r
        if method == 'reduceat':
            a, ix = to_sarr(inputs[0]), [int(i) for i in np.asarray(nat(conc_index(inputs[1])))]
            if a.ndim != 1 or kw.get('axis', 0) not in (0, -1):
                raise Unsupported('reduceat')
            ends = ix[1:] + [len(a)]
            return concatenate([asarray([reduce_(name, fn, a[i:j] if j > i else a[i:i + 1], 0, False, None, True, None)])
                                for i, j in zip(ix, ends)])
        if method == 'accumulate':
            return accumulate_(name, fn, inputs[0], kw.get('axis', 0))
        if method == 'outer':
            a, b = to_sarr(inputs[0]), to_sarr(inputs[1])
            return ew(name, fn, (a.reshape(a.shape + (1,) * b.ndim), b))
        if method == 'at':
            a, ix, b = inputs[0], conc_index(inputs[1]), (inputs[2] if len(inputs) > 2 else None)
            o = raw(a)
            bb = np.broadcast_to(raw(to_obj(b)), np.shape(o[ix])) if b is not None else None
            idx = np.arange(o.size).reshape(o.shape)[ix]
            flat = o.reshape(-1)
            for n, i in np.ndenumerate(idx):
                v = fn(flat[i], bb[n]) if bb is not None else fn(flat[i])
                o[np.unravel_index(i, o.shape)] = v
            return None
        raise Unsupported(f'ufunc method {name}.{method}')

    def __array_function__(self, func, types, args, kwargs):
        f = FUNCS.get(func.__name__)
        if f is not None:
            return f(*args, **kwargs)
        # generic: run numpy's own implementation on object data
        try:
            impl = func._implementation
        except AttributeError:
            raise Unsupported(f'numpy function {func.__name__}')
        if not any(_deep_sym(a) for a in args) and not any(_deep_sym(a) for a in kwargs.values()):
            return wrapres(func(*[nat(a) for a in args], **{k: nat(v) for k, v in kwargs.items()}))
        r = impl(*args, **kwargs)
        return r if func.__name__ in ('copyto', 'put', 'putmask', 'place', 'put_along_axis') else _retype(r, (args, kwargs))

    # -- element access
    def __getitem__(self, k):
        if isinstance(k, str):
            raise IndexError('only integers, slices...')
        r = np.ndarray.__getitem__(raw(self), conc_index(k))
        if isinstance(r, np.ndarray):
            rr = r.view(SArr)
            rr._sdt = self._sdt
            return rr
        return fin_scalar(r) if not is_sym(r) else r

    def __setitem__(self, k, v):
        if isinstance(k, SArr) and k._sdt == B1 and any(is_sym(e) for e in raw(k).flat) and \
                k.shape == self.shape:
            vv = raw(to_obj(v))
            if vv.ndim == 0:
                o, m = raw(self), raw(k)
                val = cast_scalar(vv[()], self._sdt)
                for i in np.ndindex(o.shape):
                    o[i] = ite(m[i], val, o[i])
                return
        k = conc_index(k)
        vv = raw(to_obj(v))
        if self._sdt != OBJ:
            c = np.empty(vv.shape, dtype=object)
            for i in np.ndindex(vv.shape):
                c[i] = cast_scalar(vv[i], self._sdt)
            vv = c
        o = raw(self)
        if vv.ndim == 0:
            o[k] = vv[()]
        else:
            tgt = o[k]
            if not isinstance(tgt, np.ndarray):
                if vv.size != 1:
                    raise ValueError('setting an array element with a sequence.')
                o[k] = vv.reshape(-1)[0]
            else:
                o[k] = vv

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, x):
        return bool(s_or(*[truth(e == x) for e in raw(self).flat]))

    def item(self, *a):
        return raw(self).item(*a)

    def tolist(self):
        return raw(self).tolist()

    def _one(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return raw(self).reshape(-1)[0]

    def __bool__(self):
        if self.size == 0:
            return False
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. '
                             'Use a.any() or a.all()')
        return bool(self._one())

    def __float__(self):
        return float(self._one())

    def __int__(self):
        return int(self._one())

    def __index__(self):
        if self.ndim != 0:
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return int(self._one())

    # -- methods
    def astype(self, dt, copy=True, **kw):
        dt = norm_dtype(dt)
        o = raw(self)
        r = np.empty(o.shape, dtype=object)
        for i in np.ndindex(o.shape):
            r[i] = cast_scalar(o[i], dt)
        return mk(r, dt) if dt.kind not in 'US' else np.array(r.tolist(), dtype=dt)

    def copy(self, order='C'):
        return mk(raw(self).copy(), self._sdt)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        b = self
        while b is not None:
            if id(b) in SHARED:
                return self
            b = getattr(b, 'base', None)
        r = self.copy()
        memo[id(self)] = r
        return r

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return reduce_('add', e_add, self, axis, keepdims, initial, where)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return reduce_('multiply', e_mul, self, axis, keepdims, initial, where)

    def min(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return reduce_('minimum', e_min, self, axis, keepdims, initial, where)

    def max(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return reduce_('maximum', e_max, self, axis, keepdims, initial, where)

    def any(self, axis=None, out=None, keepdims=False, where=True):
        return reduce_('logical_or', None, self, axis, keepdims, None, where)

    def all(self, axis=None, out=None, keepdims=False, where=True):
        return reduce_('logical_and', None, self, axis, keepdims, None, where)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, where=True):
        return mean(self, axis, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return var(self, axis, ddof=ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return sh_call('sqrt', var(self, axis, ddof=ddof))

    def cumsum(self, axis=None, dtype=None, out=None):
        a = self if axis is not None else self.reshape(-1)
        return accumulate_('add', e_add, a, axis or 0)

    def argmin(self, axis=None, out=None, **kw):
        return argext(self, axis, -1)

    def argmax(self, axis=None, out=None, **kw):
        return argext(self, axis, 1)

    def argsort(self, axis=-1, kind=None, order=None, stable=None):
        return argsort(self, axis, kind, stable=stable)

    def sort(self, axis=-1, kind=None, order=None, stable=None):
        raw(self)[...] = raw(sort_arr(self, axis))

    def nonzero(self):
        return nonzero(self)

    def dot(self, b, out=None):
        return dot(self, b)

    def clip(self, a_min=None, a_max=None, out=None, **kw):
        return clip(self, kw.get('min', a_min), kw.get('max', a_max), out=out)

    def round(self, decimals=0, out=None):
        return round_(self, decimals)

    def fill(self, v):
        self[...] = v

    def conj(self):
        return self

    conjugate = conj

    @property
    def real(self):
        return self

    def searchsorted(self, v, side='left', sorter=None):
        return searchsorted(self, v, side)

    def take(self, idx, axis=None, out=None, mode='raise'):
        return mk(raw(self).take(conc_index(idx), axis=axis), self._sdt)

    def flatten(self, order='C'):
        return mk(raw(self).flatten(order), self._sdt)

    def byteswap(self, *a):
        return self

    def view(self, *a, **k):
        if a and isinstance(a[0], type) and issubclass(a[0], np.ndarray):
            return np.ndarray.view(self, *a, **k)
        if not k and (not a or (len(a) == 1 and not isinstance(a[0], type) and norm_dtype(a[0]) == self._sdt)):
            return np.ndarray.view(self)
        raise Unsupported('view of a symbolic array with another dtype')

    def tobytes(self, *a):
        raise Unsupported('tobytes of a symbolic array')

    def __reduce__(self):
        return (_rebuild, (raw(self).copy(), self._sdt))

    def __repr__(self):
        return 'SArr(' + np.ndarray.__repr__(raw(self)) + f', {self._sdt})'

    def __str__(self):
        return '<sarr>'

    def __format__(self, spec):
        return '<sarr>'


def _rebuild(o, sdt):
    return mk(o, sdt)


def _deep_sym(a):
    if isinstance(a, np.ndarray) and np.ndarray.dtype.__get__(a) == OBJ:
        return any(is_sym(e) for e in raw(a).flat)
    if isinstance(a, (list, tuple)):
        return any(_deep_sym(x) for x in a)
    return is_sym(a)


def nat(x):
    """concrete SArr -> native array"""
    if isinstance(x, SArr):
        return np.array([norm_scalar(e) for e in raw(x).flat], dtype=x._sdt if x._sdt != OBJ else None).reshape(x.shape)
    if isinstance(x, list):
        return [nat(e) for e in x]
    if isinstance(x, tuple):
        return tuple(nat(e) for e in x)
    if isinstance(x, SymReal) and x.const:
        return float(x)
    if getattr(x, '_shim_of', None) is not None:
        return x._shim_of
    return x


def wrapres(r):
    """float arrays made by native numpy become SArr (so that symbolic values can be stored)"""
    if type(r) is np.ndarray and r.dtype.kind == 'f':
        return from_concrete(r)
    if type(r) is np.ndarray and r.dtype.kind in 'biuSU':
        return r.view(PArr)
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrapres(x) for x in r)
    if type(r) is list:
        return [wrapres(x) for x in r]
    return r


# ---------------------------------------------------------------- functions

FUNCS = {}


def impl(*names):
    def d(f):
        for n in names or (f.__name__,):
            FUNCS[n] = f
        return f
    return d


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(x) for x in s)
    if isinstance(s, np.ndarray):
        return tuple(int(x) for x in s)
    return (int(s),)


def _filled(shape, val, dt):
    o = np.empty(_shape(shape), dtype=object)
    o[...] = cast_scalar(val, dt) if dt.kind not in 'US' else ''
    return mk(o, dt)


def _new(shape, val, dtype, default=F8):
    dt = norm_dtype(dtype) if dtype is not None else default
    if dt.kind in 'US' or dt.names is not None:
        return np.full(_shape(shape), '' if dt.kind == 'U' else b'', dtype=dt) if dt.names is None else np.zeros(shape, dt)
    return _filled(shape, val, dt)


@impl('zeros')
def zeros(shape, dtype=None, order='C', **kw):
    return _new(shape, 0, dtype)


@impl('ones')
def ones(shape, dtype=None, order='C', **kw):
    return _new(shape, 1, dtype)


_EMPTY_COUNTER = [0]


@impl('empty')
def empty(shape, dtype=None, order='C', **kw):
    dt = norm_dtype(dtype) if dtype is not None else F8
    if dt.kind == 'f' and E._ENGINE is not None:
        # uninitialised memory: arbitrary values
        o = np.empty(_shape(shape), dtype=object)
        for i in np.ndindex(o.shape):
            o[i] = SymReal(E.engine().fresh_real('uninit'))
        return mk(o, dt)
    return _new(shape, 0, dtype)


@impl('full')
def full(shape, fill_value, dtype=None, order='C', **kw):
    fv = norm_scalar(fill_value)
    if isinstance(fv, str) and dtype is None:
        return np.full(_shape(shape), fv)
    if isinstance(fv, np.ndarray) and fv.ndim:
        r = zeros(shape, dtype or vdtype(fv))
        r[...] = fv
        return r
    dt = norm_dtype(dtype) if dtype is not None else scalar_dtype(fv)
    if dt.kind in 'US':
        return np.full(_shape(shape), fv, dtype=dt)
    return _filled(shape, fv, dt)


def _like(val):
    def f(a, dtype=None, order='K', subok=True, shape=None, **kw):
        a = a if isinstance(a, np.ndarray) else to_obj(a)
        return _new(a.shape if shape is None else shape, val, dtype or vdtype(a))
    return f


FUNCS['zeros_like'] = _like(0)
FUNCS['ones_like'] = _like(1)
FUNCS['empty_like'] = lambda a, dtype=None, order='K', subok=True, shape=None, **kw: empty(
    np.shape(a) if shape is None else shape, dtype or vdtype(a if isinstance(a, np.ndarray) else to_obj(a)))


@impl('full_like')
def full_like(a, fill_value, dtype=None, order='K', subok=True, shape=None, **kw):
    a = a if isinstance(a, np.ndarray) else to_obj(a)
    return full(a.shape if shape is None else shape, fill_value, dtype or vdtype(a))


@impl('array')
def array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0, **kw):
    if isinstance(x, SArr) or has_sym(x) or (isinstance(x, (list, tuple)) and any(isinstance(e, SArr) for e in x)):
        r = to_sarr(x, dtype)
        if r is x and copy:
            r = r.copy()
        if isinstance(r, SArr):
            while r.ndim < ndmin:
                r = r[None]
        return r
    r = np.array(nat(x) if isinstance(x, (list, tuple)) else x, dtype=nat_dtype(dtype), ndmin=ndmin)
    return wrapres(r)


def nat_dtype(dt):
    return norm_dtype(dt) if dt is not None else None


@impl('asarray', 'asanyarray', 'ascontiguousarray', 'asfarray')
def asarray(x, dtype=None, order=None, **kw):
    if isinstance(x, SArr):
        return to_sarr(x, dtype)
    if has_sym(x):
        return to_sarr(x, dtype)
    if type(x) is np.ndarray and (dtype is None or norm_dtype(dtype) == x.dtype):
        # keep identity for native arrays unless they are floats, which must be able to hold symbols
        return x if x.dtype.kind != 'f' else from_concrete(x)
    return wrapres(np.asarray(nat(x), dtype=nat_dtype(dtype)))


@impl('frombuffer')
def frombuffer(buffer, dtype=float, count=-1, offset=0, like=None):
    if isinstance(buffer, SArr):
        a = buffer.reshape(-1)
        d = np.dtype(dtype)
        if d.itemsize != a.dtype.itemsize or d.kind != a.dtype.kind or offset % d.itemsize:
            raise Unsupported('frombuffer of another type')
        a = a[offset // d.itemsize:]
        return a if count < 0 else a[:count]
    return wrapres(np.frombuffer(buffer, dtype=dtype, count=count, offset=offset))


@impl('copy')
def copy(a, order='K', subok=False):
    return array(a, copy=True)


@impl('arange')
def arange(*a, dtype=None, **kw):
    if any(is_sym(x) for x in a):
        a = [norm_scalar(x) for x in a]
        st, en, sp = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if all(isinstance(x, (int, SymInt, SymBV)) for x in (st, en, sp)):
            return np.arange(*[int(x) for x in a], dtype=nat_dtype(dtype))
        n = e_ceil(e_div(en - st, sp))
        n = int(n) if not is_sym(n) else n.to_int()
        n = max(0, int(n))
        return mk(np.array([st + i * sp for i in range(n)] + [None], dtype=object)[:-1], F8)
    return wrapres(np.arange(*a, dtype=nat_dtype(dtype), **kw))


@impl('linspace')
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    if any(isinstance(x, np.ndarray) and x.ndim for x in (start, stop)):
        raise Unsupported('linspace of arrays')
    start, stop = norm_scalar(start), norm_scalar(stop)
    if not is_sym(start) and not is_sym(stop):
        return wrapres(np.linspace(start, stop, num, endpoint, retstep, nat_dtype(dtype)))
    start, stop = SymReal.lift(start), SymReal.lift(stop)
    div = num - 1 if endpoint else num
    o = np.empty((num,), dtype=object)
    for i in range(num):
        if i == 0:
            o[i] = start
        elif endpoint and i == num - 1:
            o[i] = stop
        else:
            o[i] = start + (stop - start) * SymReal(Fraction(i, div))
    r = mk(o, F8)
    if retstep:
        return r, (stop - start) / div
    return r


def lib_signbit(a):
    return bool(np.signbit(a)) if isinstance(a, (int, float, np.number)) else a < 0


@impl('isneginf')
def isneginf(x, out=None):
    return UFmap(x, lambda a: isinstance(a, float) and a == -E.INF)


@impl('isposinf')
def isposinf(x, out=None):
    return UFmap(x, lambda a: isinstance(a, float) and a == E.INF)


def UFmap(x, f):
    if not isinstance(x, SArr):
        x = asarray(x)
    if not isinstance(x, SArr):
        r = np.isinf(x)
        return r & np.array([f(float(a)) for a in np.ravel(x)], dtype=bool).reshape(np.shape(x))
    o = raw(to_obj(x))
    r = np.array([f(norm_scalar(a)) for a in o.ravel()], dtype=bool).reshape(o.shape)
    return wrapres(r)


@impl('concatenate')
def concatenate(arrs, axis=0, out=None, dtype=None, casting=None):
    arrs = list(arrs)
    if arrs and hasattr(arrs[0], 'rec_concat'):
        return arrs[0].rec_concat(arrs)
    arrs = [a if isinstance(a, np.ndarray) else asarray(a) for a in arrs]
    if not arrs:
        raise ValueError('need at least one array to concatenate')
    if not any(isinstance(a, SArr) for a in arrs):
        return wrapres(np.concatenate(arrs, axis=axis))
    sdt = _promote(*[vdtype(a) for a in arrs])
    if sdt == OBJ:
        sdt = None
    objs = [raw(to_obj(a)) for a in arrs]
    r = np.concatenate(objs, axis=axis)
    r = mk(r, sdt)
    if sdt is not None:
        r = r.astype(sdt)
    return r


def _stack(f):
    def g(arrs, *a, **k):
        arrs = list(arrs)
        if arrs and hasattr(arrs[0], 'rec_concat'):
            return arrs[0].rec_concat(arrs)
        arrs = [x if isinstance(x, np.ndarray) else asarray(x) for x in arrs]
        if not any(isinstance(x, SArr) for x in arrs):
            return wrapres(getattr(np, f)(arrs, *a, **k))
        sdt = _promote(*[vdtype(x) for x in arrs])
        r = getattr(np, f)([raw(to_obj(x)) for x in arrs], *a, **k)
        if sdt.kind in 'US':
            return np.array(r.tolist(), dtype=sdt).reshape(r.shape)
        return mk(r, sdt).astype(sdt)
    return g


for _f in ('vstack', 'hstack', 'dstack', 'stack', 'column_stack', 'row_stack'):
    if hasattr(np, _f) or _f != 'row_stack':
        FUNCS[_f] = _stack(_f)


@impl('append')
def append(arr, values, axis=None):
    a, v = asarray(arr), asarray(values)
    if axis is None:
        a, v = a.reshape(-1), v.reshape(-1)
        axis = 0
    return concatenate((a, v), axis=axis)


class _C:
    def __getitem__(self, k):
        return NP.column_stack(k if isinstance(k, tuple) else (k,))


class _R:
    def __getitem__(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        parts = []
        for x in k:
            if isinstance(x, slice):
                parts.append(wrapres(np.r_[x]))
            elif isinstance(x, np.ndarray):
                parts.append(x)
            elif isinstance(x, (list, tuple)):
                parts.append(asarray(x))
            else:
                parts.append(asarray([x]))
        return concatenate(parts)


@impl('where')
def where(cond, *xy):
    if not xy:
        return nonzero(cond) if has_sym(cond) else np.where(nat(cond))
    x, y = xy
    if not has_sym(cond) and not has_sym(x) and not has_sym(y):
        return wrapres(np.where(cond, x, y))
    c, xo, yo = raw(to_obj(cond)), raw(to_obj(x)), raw(to_obj(y))
    c, xo, yo = np.broadcast_arrays(c, xo, yo)
    r = np.empty(c.shape, dtype=object)
    for i in np.ndindex(c.shape):
        r[i] = ite(truth(c[i]), xo[i], yo[i])
    sdt = _promote(vdtype(x if isinstance(x, np.ndarray) else to_obj(x)),
                   vdtype(y if isinstance(y, np.ndarray) else to_obj(y)))
    if r.ndim == 0:
        return to_sarr(r[()]) if is_sym(r[()]) else wrapres(np.asarray(r[()]))
    r = mk(r, sdt)
    return demote(r.astype(sdt) if sdt.kind not in 'USO' else r)


def _red(name, meth):
    def f(a, axis=None, *args, **kw):
        if isinstance(a, SArr) or has_sym(a):
            kw.pop('out', None)
            kw = {k: v for k, v in kw.items() if v is not np._NoValue}
            return getattr(to_sarr(a), meth)(axis, *args, **kw)
        return wrapres(getattr(np, name)(nat(a), axis, *args, **kw))
    return f


for _n, _m in (('sum', 'sum'), ('prod', 'prod'), ('min', 'min'), ('amin', 'min'), ('max', 'max'), ('amax', 'max'),
               ('any', 'any'), ('all', 'all'), ('cumsum', 'cumsum'), ('argmin', 'argmin'), ('argmax', 'argmax')):
    FUNCS[_n] = _red(_n, _m)


@impl('mean')
def mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = to_sarr(a)
    s = a.sum(axis, keepdims=keepdims)
    n = a.size if axis is None else (a.shape[axis] if not isinstance(axis, tuple) else
                                     int(np.prod([a.shape[i] for i in axis])))
    return s / float(n)


@impl('average')
def average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = to_sarr(a)
    if weights is None:
        return mean(a, axis)
    w = to_sarr(weights)
    if w.shape != a.shape and axis is not None:
        shp = [1] * a.ndim
        shp[axis] = w.shape[0]
        w = w.reshape(shp)
    sw = (w * np.ones(a.shape)).sum(axis)
    if axis is None and bool(truth(sw == 0)):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    r = (a * w).sum(axis) / sw
    return (r, sw) if returned else r


@impl('var')
def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    a = to_sarr(a)
    m = mean(a, axis, keepdims=True) if a.ndim else a
    d = a - m
    s = (d * d).sum(axis)
    n = a.size if axis is None else a.shape[axis]
    return s / float(n - ddof)


@impl('std')
def std(a, axis=None, ddof=0, **kw):
    return sh_call('sqrt', var(a, axis, ddof=ddof))


@impl('median')
def median(a, axis=None, **kw):
    if axis is not None:
        a = to_sarr(a)
        m = np.moveaxis(raw(a), axis, -1)
        r = np.empty(m.shape[:-1], dtype=object)
        for i in np.ndindex(r.shape):
            r[i] = median(mk(m[i].copy(), F8))
        return _s(r, F8)
    s = sort_arr(to_sarr(a).reshape(-1))
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2.0


def _nanred(name, base):
    def f(a, axis=None, **kw):
        a = to_sarr(a)

        def one(v):
            v = [x for x in v if not nanp(norm_scalar(x))]
            if not v:
                return {'nansum': 0.0, 'nanprod': 1.0}.get(name, float('nan'))
            return base(mk(np.array(v + [None], dtype=object)[:-1], F8))
        if axis is None:
            return fin_scalar(one(list(raw(a).flat)))
        m = np.moveaxis(raw(a), axis, -1)
        r = np.empty(m.shape[:-1], dtype=object)
        for i in np.ndindex(r.shape):
            r[i] = one(list(m[i]))
        return _s(r, F8)
    return f


FUNCS['nansum'] = _nanred('nansum', lambda v: v.sum())
FUNCS['nanmin'] = _nanred('nanmin', lambda v: v.min())
FUNCS['nanmax'] = _nanred('nanmax', lambda v: v.max())
FUNCS['nanmean'] = _nanred('nanmean', lambda v: mean(v))
FUNCS['nanmedian'] = _nanred('nanmedian', lambda v: median(v))


def _nanarg(sign):
    def f(a, axis=None, **kw):
        a = to_sarr(a)
        if axis is not None:
            raise Unsupported('nanarg axis')
        o = list(raw(a).reshape(-1))
        ix = [i for i, x in enumerate(o) if not nanp(norm_scalar(x))]
        if not ix:
            raise ValueError('All-NaN slice encountered')
        b = argext(mk(np.array([o[i] for i in ix] + [None], dtype=object)[:-1], F8), None, sign)
        return np.int64(ix[int(b)])
    return f


FUNCS['nanargmin'] = _nanarg(-1)
FUNCS['nanargmax'] = _nanarg(1)


@impl('dot')
def dot_(a, b, out=None):
    if has_sym(a) or has_sym(b):
        return dot(a, b)
    return wrapres(np.dot(a, b))


FUNCS['inner'] = lambda a, b: dot(a, b) if np.ndim(b) == 1 else dot(a, to_sarr(b).T)
FUNCS['vdot'] = lambda a, b: dot(to_sarr(a).reshape(-1), to_sarr(b).reshape(-1))
FUNCS['outer'] = lambda a, b, out=None: ew('multiply', e_mul, (to_sarr(a).reshape(-1)[:, None], to_sarr(b).reshape(-1)))
FUNCS['matmul'] = lambda a, b, **k: matmul(a, b)


@impl('einsum')
def einsum(spec, *ops, **kw):
    ops = [raw(to_obj(o)) for o in ops]
    spec = spec.replace(' ', '')
    if '...' in spec:
        raise Unsupported('einsum ellipsis')
    if '->' in spec:
        ins, outp = spec.split('->')
    else:
        ins = spec
        letters = ''.join(sorted(c for c in set(ins.replace(',', '')) if ins.count(c) == 1))
        outp = letters
    ins = ins.split(',')
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dims[c] = n
    summed = [c for c in dims if c not in outp]
    r = np.empty(tuple(dims[c] for c in outp), dtype=object)
    for i in np.ndindex(r.shape):
        env = dict(zip(outp, i))
        acc = 0.0
        for j in np.ndindex(tuple(dims[c] for c in summed)):
            env.update(zip(summed, j))
            p = None
            for s, o in zip(ins, ops):
                x = o[tuple(env[c] for c in s)]
                p = x if p is None else p * x
            acc = acc + p
        r[i] = acc
    return _s(r, F8)


@impl('tensordot')
def tensordot(a, b, axes=2):
    return _s(np.tensordot(raw(to_obj(a)), raw(to_obj(b)), axes), F8)


FUNCS['argsort'] = lambda a, axis=-1, kind=None, order=None, stable=None: argsort(a, axis, kind, stable=stable) \
    if has_sym(a) else np.argsort(nat(a), axis=axis, kind=kind, stable=stable)
FUNCS['sort'] = lambda a, axis=-1, **k: sort_arr(a, axis) if has_sym(a) else wrapres(np.sort(nat(a), axis=axis))
FUNCS['lexsort'] = lambda keys, axis=-1: lexsort(keys, axis)
FUNCS['nonzero'] = nonzero
FUNCS['flatnonzero'] = lambda a: nonzero(to_sarr(a).reshape(-1))[0]
FUNCS['count_nonzero'] = lambda a, axis=None, keepdims=False: reduce_(
    'add', e_add, ew('not_equal', BIN['not_equal'], (a, 0)) if vdtype(to_obj(a)) != B1 else to_obj(a), axis, keepdims)
FUNCS['argwhere'] = lambda a: np.transpose(nonzero(a)) if np.ndim(a) else np.argwhere(bool(a))


@impl('searchsorted')
def searchsorted(a, v, side='left', sorter=None):
    if not has_sym(a) and not has_sym(v):
        return np.searchsorted(nat(a), nat(v), side=side)
    aa = [norm_scalar(x) for x in raw(to_obj(a))]
    vo = raw(to_obj(v))
    r = np.empty(vo.shape, dtype=int)
    for i in np.ndindex(vo.shape):
        x = norm_scalar(vo[i])
        n = 0
        for y in aa:
            if bool(y < x) if side == 'left' else bool(y <= x):
                n += 1
            else:
                break
        r[i] = n
    return r if r.ndim else np.int64(r[()])


@impl('interp')
def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('interp period')
    xo = to_obj(x)
    xs = raw(xo)
    xp = [norm_scalar(t) for t in raw(to_obj(xp))]
    fp = [norm_scalar(t) for t in raw(to_obj(fp))]
    if not xp:
        raise ValueError('array of sample points is empty')
    if len(xp) != len(fp):
        raise ValueError('fp and xp are not of the same length.')
    r = np.empty(xs.shape, dtype=object)
    for i in np.ndindex(xs.shape):
        t = norm_scalar(xs[i])
        if bool(truth(t < xp[0])):
            r[i] = fp[0] if left is None else left
            continue
        if bool(truth(t > xp[-1])):
            r[i] = fp[-1] if right is None else right
            continue
        for j in range(len(xp)):
            if bool(truth(t == xp[j])):
                r[i] = fp[j]
                break
            if j + 1 < len(xp) and bool(truth(t < xp[j + 1])):
                r[i] = fp[j] + (t - xp[j]) * e_div(fp[j + 1] - fp[j], xp[j + 1] - xp[j])
                break
        else:
            r[i] = fp[-1]
    return _s(r, F8)


@impl('clip')
def clip(a, a_min=None, a_max=None, out=None, **kw):
    a_min = kw.get('min', a_min)
    a_max = kw.get('max', a_max)
    r = a
    if a_min is not None:
        r = ew('maximum', e_max, (r, a_min))
    if a_max is not None:
        r = ew('minimum', e_min, (r, a_max))
    if out is not None:
        assign(out, Ellipsis, r)
        return out
    return r


@impl('nan_to_num')
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        if nanp(v):
            return nan
        if isinstance(v, float) and v == E.INF:
            return posinf if posinf is not None else np.finfo(float).max
        if isinstance(v, float) and v == -E.INF:
            return neginf if neginf is not None else np.finfo(float).min
        return v
    r = ew('positive', f, (x,))
    if not copy and isinstance(x, SArr):
        x[...] = r
        return x
    return r


@impl('isin')
def isin(a, test, assume_unique=False, invert=False, kind=None):
    if not has_sym(a) and not has_sym(test):
        return np.isin(nat(a), nat(test), invert=invert)
    a = to_obj(a)
    tests = [norm_scalar(t) for t in raw(to_obj(test)).flat]
    o = raw(a)
    r = np.empty(o.shape, dtype=object)
    for i in np.ndindex(o.shape):
        x = s_or(*[truth(norm_scalar(o[i]) == t) for t in tests])
        r[i] = s_not(x) if invert else x
    return _s(r, B1)


FUNCS['in1d'] = lambda a, b, **k: isin(to_sarr(a).reshape(-1), b, **k)


@impl('unique')
def unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    if not has_sym(ar) or not _deep_sym(ar):
        return wrapres(np.unique(nat(ar), return_index=return_index, return_inverse=return_inverse,
                                 return_counts=return_counts, axis=axis))
    a = to_sarr(ar).reshape(-1)
    vals = [norm_scalar(x) for x in raw(a)]
    ix = argsort1(vals)
    groups = []
    for i in ix:
        if groups and bool(truth(vals[groups[-1][0]] == vals[i])):
            groups[-1].append(i)
        else:
            groups.append([i])
    o = np.empty(len(groups), dtype=object)
    for g, m in enumerate(groups):
        o[g] = vals[m[0]]
    out = [mk(o, a._sdt)]
    if return_index:
        out.append(np.array([min(m) for m in groups], dtype=int))
    if return_inverse:
        inv = np.zeros(len(vals), dtype=int)
        for g, m in enumerate(groups):
            inv[m] = g
        out.append(inv)
    if return_counts:
        out.append(np.array([len(m) for m in groups], dtype=int))
    return out[0] if len(out) == 1 else tuple(out)


@impl('bincount')
def bincount(x, weights=None, minlength=0):
    ix = [int(i) for i in np.asarray(conc_index(to_sarr(x)) if has_sym(x) else nat(x))]
    n = max([minlength] + [i + 1 for i in ix])
    out = [0 if weights is None else 0.0] * n
    w = [1] * len(ix) if weights is None else list(raw(to_sarr(weights)).flat)
    for i, v in zip(ix, w):
        out[i] = out[i] + v
    o = np.empty(n, dtype=object)
    o[:] = out
    return _s(o, I8 if weights is None else F8)


@impl('select')
def select(condlist, choicelist, default=0):
    r = default
    for c, v in list(zip(condlist, choicelist))[::-1]:
        r = FUNCS['where'](c, v, r)
    return r


@impl('compress', 'extract')
def compress(condition, a, axis=None, out=None):
    if axis is None:
        a = to_sarr(a).reshape(-1)
        c = to_sarr(condition).reshape(-1)
        return a[:len(c)][c]
    return a[(slice(None),) * (axis % to_sarr(a).ndim) + (condition,)]


@impl('choose')
def choose(a, choices, **k):
    ix = raw(to_obj(a))
    o = np.empty(ix.shape, dtype=object)
    cs = [np.broadcast_to(raw(to_obj(c)), ix.shape) for c in choices]
    for i in np.ndindex(ix.shape):
        o[i] = cs[int(ix[i])][i]
    return _s(o, _promote(*[vdtype(to_obj(c)) for c in choices]))


@impl('percentile')
def percentile(a, q, axis=None, **kw):
    return quantile(a, np.asarray(nat(q)) / 100., axis, **kw)


@impl('quantile')
def quantile(a, q, axis=None, **kw):
    if axis is not None or np.ndim(nat(q)) or kw:
        raise Unsupported('quantile')
    s = sort_arr(to_sarr(a).reshape(-1))
    p = float(q) * (len(s) - 1)
    i = int(np.floor(p))
    return s[i] if p == i else s[i] + (s[i + 1] - s[i]) * (p - i)


@impl('block')
def block(arrays):
    def rec(x, depth):
        if isinstance(x, list):
            return concatenate([rec(e, depth - 1) for e in x], axis=-max(depth, 1))
        return FUNCS['atleast_1d'](x) if 'atleast_1d' in FUNCS else (x if np.ndim(x) else asarray([x]))
    d, x = 0, arrays
    while isinstance(x, list):
        d, x = d + 1, x[0]
    return rec(arrays, d)


@impl('fromiter')
def fromiter(it, dtype=None, count=-1, **kw):
    v = []
    for x in it:
        if count >= 0 and len(v) == count:
            break
        v.append(x)
    return FUNCS['array'](v, dtype=dtype)


@impl('vectorize')
def vectorize(f, otypes=None, **kw):
    def g(*a):
        bc = np.broadcast_arrays(*[raw(to_obj(x)) for x in a])
        o = np.empty(bc[0].shape, dtype=object)
        for i in np.ndindex(o.shape):
            o[i] = norm_scalar(f(*[fin_scalar(b[i]) if not is_sym(b[i]) else b[i] for b in bc]))
        return _s(o, norm_dtype(np.dtype(otypes[0])) if otypes else _infer(o))
    return g


@impl('asfortranarray', 'require')
def asfortranarray(a, dtype=None, *x, **k):
    return FUNCS['array'](a, dtype=dtype)


@impl('divmod')
def divmod_(a, b):
    return SHIM_UFUNC('floor_divide')(a, b), SHIM_UFUNC('remainder')(a, b)


@impl('modf')
def modf(a):
    t = SHIM_UFUNC('trunc')(a)
    return a - t, t


@impl('isscalar')
def isscalar(x):
    return True if is_sym(x) else np.isscalar(x)


@impl('array_equal')
def array_equal(a, b, equal_nan=False):
    if not has_sym(a) and not has_sym(b):
        return np.array_equal(nat(a), nat(b), equal_nan)
    a, b = to_obj(a), to_obj(b)
    if a.shape != b.shape:
        return False
    return bool(s_and(*[truth(norm_scalar(x) == norm_scalar(y)) for x, y in zip(raw(a).flat, raw(b).flat)]))


@impl('isclose')
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return ew('less', lambda x, y: e_close(x, y, rtol, atol), (a, b))


@impl('allclose')
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(s_and(*[truth(t) for t in raw(to_obj(isclose(a, b, rtol, atol))).flat]))


@impl('diff')
def diff(a, n=1, axis=-1, **kw):
    a = to_sarr(a)
    for _ in range(n):
        o = np.moveaxis(raw(a), axis, 0)
        a = mk(np.moveaxis(np.array(raw(ew('subtract', e_sub, (mk(o[1:], a._sdt), mk(o[:-1], a._sdt))))), 0, axis), a._sdt) \
            if o.shape[0] > 1 else mk(np.moveaxis(o[1:], 0, axis), a._sdt)
    return a


@impl('trapz', 'trapezoid')
def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = to_sarr(y)
    if y.ndim != 1:
        raise Unsupported('trapezoid of n-d array')
    s = 0.0
    for i in range(len(y) - 1):
        d = dx if x is None else x[i + 1] - x[i]
        s = s + d * (y[i] + y[i + 1]) / 2.0
    return s


@impl('gradient')
def gradient(f, *a, **k):
    if a or k:
        raise Unsupported('gradient spacing')
    f = to_sarr(f)
    n = len(f)
    r = zeros(n)
    r[0] = f[1] - f[0]
    r[n - 1] = f[n - 1] - f[n - 2]
    for i in range(1, n - 1):
        r[i] = (f[i + 1] - f[i - 1]) / 2.0
    return r


@impl('fill_diagonal')
def fill_diagonal(a, val, wrap=False):
    v = to_obj(val)
    for i in range(min(a.shape)):
        a[i, i] = v[()] if v.ndim == 0 else v.reshape(-1)[i % v.size]


@impl('diag')
def diag(v, k=0):
    return mk(np.diag(raw(to_obj(v)), k) if np.ndim(v) == 2 else _diag1(v, k), F8)


def _diag1(v, k):
    v = raw(to_obj(v))
    n = len(v) + abs(k)
    o = np.empty((n, n), dtype=object)
    o[...] = 0.0
    for i, x in enumerate(v):
        o[i + max(0, -k), i + max(0, k)] = x
    return o


@impl('eye', 'identity')
def eye(n, M=None, k=0, dtype=None, **kw):
    return from_concrete(np.eye(int(n), None if M is None else int(M), k))


FUNCS['shape'] = lambda a: a.shape if hasattr(a, 'shape') else np.shape(to_obj(a))
FUNCS['ndim'] = lambda a: a.ndim if hasattr(a, 'ndim') else np.ndim(to_obj(a))
FUNCS['size'] = lambda a, axis=None: (a.size if axis is None else a.shape[axis]) if hasattr(a, 'size') else np.size(to_obj(a))


def _keep(name):
    """structural functions: run on the raw object data, keep the dtype"""
    def f(a, *args, **kw):
        if isinstance(a, SArr) or has_sym(a):
            a = to_sarr(a)
            r = getattr(np, name)(raw(a), *[conc_index(x) if isinstance(x, (SArr, Sym)) else x for x in args], **kw)
            if isinstance(r, list):
                return [mk(x, a._sdt) for x in r]
            return mk(r, a._sdt) if isinstance(r, np.ndarray) else r
        return wrapres(getattr(np, name)(a, *args, **kw))
    return f


for _n in ('reshape', 'ravel', 'transpose', 'swapaxes', 'moveaxis', 'rollaxis', 'squeeze', 'expand_dims', 'tile',
           'repeat', 'roll', 'flip', 'fliplr', 'flipud', 'take', 'delete', 'split', 'array_split', 'hsplit', 'vsplit',
           'broadcast_to', 'atleast_1d', 'atleast_2d', 'tril', 'triu', 'resize', 'take_along_axis', 'trace',
           'diagonal', 'rot90'):
    FUNCS[_n] = _keep(_n)


@impl('pad')
def pad(a, pad_width, mode='constant', constant_values=0, **kw):
    if mode != 'constant':
        raise Unsupported('pad mode')
    if not isinstance(a, SArr):
        return wrapres(np.pad(a, nat(pad_width), constant_values=constant_values))
    r = np.pad(raw(a), nat(pad_width), constant_values=cast_scalar(constant_values, a._sdt))
    return mk(r, a._sdt)


@impl('insert')
def insert(a, idx, vals, axis=None):
    a = to_sarr(a)
    return mk(np.insert(raw(a), conc_index(idx), raw(to_obj(vals)), axis), a._sdt)


@impl('copyto')
def copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = FUNCS['where'](where, src, dst)


@impl('polyval')
def polyval(p, x):
    y = 0.0 * x if isinstance(x, np.ndarray) else 0.0
    for c in p:
        y = y * x + c
    return y


@impl('polyfit')
def polyfit(x, y, deg, **kw):
    """exact least squares for the square case len(x) == deg+1 (interpolating parabola)"""
    x, y = to_sarr(x), to_sarr(y)
    if len(x) != len(y):
        raise TypeError('expected x and y to have same length')
    if deg == 2 and len(x) == 3:
        x0, x1, x2 = [SymReal.lift(t) for t in raw(x)]
        ys = [SymReal.lift(t) for t in raw(y)]
        if any(special(t) for t in ys):
            if any(special(t) for t in ys):
                raise np.linalg.LinAlgError('SVD did not converge in Linear Least Squares')
        d01, d12, d02 = x1 - x0, x2 - x1, x2 - x0
        if bool(truth(s_or(truth(d01 == 0), truth(d12 == 0), truth(d02 == 0)))):
            raise Unsupported('polyfit with repeated abscissae')
        f01 = (ys[1] - ys[0]) / d01
        f12 = (ys[2] - ys[1]) / d12
        a = (f12 - f01) / d02
        b = f01 - a * (x0 + x1)
        c = ys[0] - f01 * x0 + a * x0 * x1
        return mk(np.array([a, b, c, None], dtype=object)[:-1], F8)
    raise Unsupported('polyfit')


def sh_call(name, *a):
    return SHIM_UFUNC(name)(*a)


class SHIM_UFUNC:
    _cache = {}

    def __new__(cls, name):
        if name in cls._cache:
            return cls._cache[name]
        o = object.__new__(cls)
        o.name = name
        o.__name__ = name
        o.uf = getattr(np, name)
        cls._cache[name] = o
        return o

    def __call__(self, *args, **kw):
        n = self.uf.nin
        pos = list(args)
        out = kw.pop('out', None)
        if len(pos) > n:
            out = pos[n]
            pos = pos[:n]
        if isinstance(out, tuple):
            out = out[0]
        if any(has_sym(a) for a in pos) or isinstance(out, SArr):
            if self.name == 'matmul':
                return matmul(*pos)
            fn = BIN.get(self.name) or UN.get(self.name)
            if fn is None:
                if not any(_deep_sym(a) for a in pos):
                    return wrapres(self.uf(*[nat(a) for a in pos]))
                raise Unsupported(f'ufunc {self.name}')
            r = ew(self.name, fn, pos, out=out, where=kw.get('where', True))
            dt = kw.get('dtype')
            return r.astype(dt) if dt is not None and isinstance(r, SArr) else r
        if out is not None:
            kw['out'] = out
        if 'dtype' in kw:
            kw['dtype'] = nat_dtype(kw['dtype'])
        return wrapres(self.uf(*pos, **kw))

    def _m(self, m, *a, **k):
        if has_sym(a[0]):
            return to_sarr(a[0]).__array_ufunc__(self.uf, m, to_sarr(a[0]), *a[1:], **k)
        return wrapres(getattr(self.uf, m)(*a, **k))

    def reduce(self, a, axis=0, **k): return self._m('reduce', a, axis=axis, **k)
    def accumulate(self, a, axis=0, **k): return self._m('accumulate', a, axis=axis, **k)
    def outer(self, a, b, **k): return to_sarr(a).__array_ufunc__(self.uf, 'outer', a, b)

    def reduceat(self, a, ix, **k): return self._m('reduceat', a, ix, **k)

    def at(self, a, ix, b=None):
        return a.__array_ufunc__(self.uf, 'at', a, ix, b) if isinstance(a, SArr) else self.uf.at(a, ix, b)

    def __getattr__(self, n):
        return getattr(self.uf, n)


def _obj_in(x):
    if isinstance(x, np.ndarray):
        return x.dtype == object if not isinstance(x, SArr) else x._sdt == OBJ
    if isinstance(x, (list, tuple)):
        return any(_obj_in(e) for e in x)
    if isinstance(x, dict):
        return any(_obj_in(e) for e in x.values())
    return False


def _retype(r, inputs):
    """what numpy's own code made of object data gets the type of its elements"""
    if isinstance(r, (list, tuple)) and type(r) in (list, tuple):
        return type(r)(_retype(x, inputs) for x in r)
    if isinstance(r, np.ndarray) and np.ndarray.dtype.__get__(r) == object and \
            (not isinstance(r, SArr) or r._sdt == OBJ) and not _obj_in(inputs) and r.size:
        o = raw(r) if isinstance(r, SArr) else r
        try:
            dt = _infer(o)
        except Exception:
            return r
        if dt != OBJ and dt is not None:
            v = o.view(SArr)
            v._sdt = dt
            return v
    return r


def _generic(name, f):
    @functools.wraps(f)
    def g(*a, **k):
        h = FUNCS.get(name)
        if h is not None:
            return h(*a, **k)
        if has_sym(a) or has_sym(k):
            if not any(_deep_sym(x) for x in a) and not any(_deep_sym(v) for v in k.values()):
                return wrapres(f(*[nat(x) for x in a], **{kk: nat(v) for kk, v in k.items()}))
            # let numpy dispatch through __array_function__
            a = [to_sarr(x) if isinstance(x, (list, tuple)) and has_sym(x) else x for x in a]
            return _retype(wrapres(f(*a, **k)), (a, k))
        if 'dtype' in k:
            k['dtype'] = nat_dtype(k['dtype'])
        return wrapres(f(*[nat(x) for x in a], **k))
    return g


class Linalg(types.ModuleType):
    """np.linalg with the solver replaced by its contract: solve(M, y) returns the x with
    M x = y, or raises LinAlgError when M is singular."""
    LinAlgError = np.linalg.LinAlgError

    def __init__(self):
        super().__init__('numpy.linalg')

    @staticmethod
    def solve(M, y):
        if not has_sym(M) and not has_sym(y):
            return wrapres(np.linalg.solve(nat(M), nat(y)))
        eng = E.engine()
        hook = getattr(eng, 'solve_hook', None)
        if hook is not None:
            return hook(M, y)
        return contract_solve(M, y)

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        if ord not in (None, 2):
            raise Unsupported('norm')
        x = to_sarr(x)
        return sh_call('sqrt', (x * x).sum(axis))

    @staticmethod
    def inv(M):
        M = to_sarr(M)
        n = M.shape[-1]
        return contract_solve(M, from_concrete(np.eye(n)))

    @staticmethod
    def det(M):
        return _det([[norm_scalar(x) for x in r] for r in raw(to_obj(M))])

    def __getattr__(self, n):
        v = getattr(np.linalg, n)
        return _generic('linalg.' + n, v) if callable(v) and not isinstance(v, type) else v


def _det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    s = 0
    for j in range(n):
        minor = [r[:j] + r[j + 1:] for r in m[1:]]
        t = m[0][j] * _det(minor)
        s = s + t if j % 2 == 0 else s - t
    return s


def contract_solve(M, y):
    """Cramer's rule: exact solution of the linear system, forking on singularity."""
    M, y = to_obj(M), to_obj(y)
    Mr, yr = raw(M), raw(y)
    if Mr.ndim > 2:
        shp = Mr.shape[:-2]
        vec = yr.ndim == 1
        yb = yr if not vec else np.broadcast_to(yr[:, None], shp + (yr.shape[0], 1))
        if yb.ndim < 2 or yb.shape[-2] != Mr.shape[-1]:
            raise ValueError('solve: Input operand 1 has a mismatch in its core dimension 0')
        yb = np.broadcast_to(yb, shp + yb.shape[-2:])
        r = np.empty(yb.shape, dtype=object)
        for i in np.ndindex(shp):
            r[i] = raw(contract_solve(mk(Mr[i], F8), mk(yb[i], F8)))
        return mk(r[..., 0] if vec else r, F8)
    n = Mr.shape[0]
    if Mr.ndim != 2 or Mr.shape[1] != n:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    if yr.shape[0] != n:
        raise ValueError('solve: Input operand 1 has a mismatch in its core dimension 0')
    rows = [[SymReal.lift(x) for x in r] for r in Mr]
    if any(special(x) for r in rows for x in r) or any(special(norm_scalar(x)) for x in yr.flat):
        raise Unsupported('linear solve with nan/inf')
    d = SymReal.lift(_det(rows))
    if bool(truth(d == 0)):
        raise np.linalg.LinAlgError('Singular matrix')
    ycols = yr.reshape(n, -1)
    out = np.empty(ycols.shape, dtype=object)
    for c in range(ycols.shape[1]):
        for j in range(n):
            mm = [r[:] for r in rows]
            for i in range(n):
                mm[i][j] = SymReal.lift(ycols[i, c])
            out[j, c] = _det(mm) / d
    return mk(out.reshape(yr.shape), F8)


def _native(f):
    def g(*a, **k):
        return wrapres(f(*[nat(x) if isinstance(x, (SArr, list, tuple)) else x for x in a], **k))
    return g


class NpShim(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.linalg = Linalg()
        self.r_ = _R()
        self.c_ = _C()
        self._c = {}
        self.char = types.SimpleNamespace(**{k: _native(getattr(np.char, k)) for k in
                                             ('encode', 'decode', 'strip', 'upper', 'lower', 'add', 'str_len', 'startswith', 'endswith')})
        self.strings = types.SimpleNamespace(**{k: _native(getattr(np.strings, k)) for k in
                                                ('encode', 'decode', 'strip', 'upper', 'lower', 'add', 'str_len', 'startswith', 'endswith')
                                                if hasattr(np.strings, k)})

    def __getattr__(self, name):
        if name.startswith('__') and name != '__version__':
            raise AttributeError(name)
        c = self.__dict__.get('_c', {})
        if name in c:
            return c[name]
        if name in FUNCS and (name in ('divmod', 'modf') or not isinstance(getattr(np, name, None), np.ufunc)):
            if not hasattr(np, name) and name not in ('trapz', 'in1d', 'row_stack'):
                raise AttributeError(f"module 'numpy' has no attribute '{name}'")
            if not hasattr(np, name):
                raise AttributeError(f"module 'numpy' has no attribute '{name}'")
            v = FUNCS[name]
        else:
            r = getattr(np, name)
            if isinstance(r, np.ufunc):
                v = SHIM_UFUNC(name)
            elif isinstance(r, type) or not callable(r) or isinstance(r, types.ModuleType):
                v = r
            else:
                v = _generic(name, r)
        c[name] = v
        return v


NP = NpShim()
