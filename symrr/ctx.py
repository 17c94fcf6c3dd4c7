"""Harness context: the same harness runs symbolically or, with the values of a model, on
the real unshimmed code."""
import math
import os
import sys
from fractions import Fraction

import numpy as np

from . import engine as E
from . import snp
from .engine import SymBool, SymBV, SymInt, SymReal, is_sym, ite, norm_scalar, s_and, s_not, s_or
from .loader import ConcreteWorld, World


class CheckFailed(Exception):
    def __init__(self, label, detail=''):
        super().__init__(f'{label} {detail}')
        self.label = label


class AssumptionFailed(Exception):
    pass


def _flat(x):
    if isinstance(x, np.ndarray):
        return [norm_scalar(e) for e in (snp.raw(x).flat if isinstance(x, snp.SArr) else x.flat)]
    if isinstance(x, (list, tuple)):
        r = []
        for e in x:
            r += _flat(e)
        return r
    return [norm_scalar(x)]


class Base:
    def cover(self, name):
        self._covers.add(name)

    # logic that works in both modes
    And = staticmethod(lambda *x: s_and(*x))
    Or = staticmethod(lambda *x: s_or(*x))
    Not = staticmethod(s_not)

    @staticmethod
    def Implies(a, b):
        return s_or(s_not(a), b)

    @staticmethod
    def ite(c, a, b):
        return ite(c, a, b)

    @staticmethod
    def min(*xs):
        r = xs[0]
        for x in xs[1:]:
            r = ite(x < r, x, r)
        return r

    @staticmethod
    def max(*xs):
        r = xs[0]
        for x in xs[1:]:
            r = ite(x > r, x, r)
        return r

    @staticmethod
    def truth(c):
        """decide a condition (forks in symbolic mode)"""
        c = norm_scalar(c)
        return bool(c)

    def onclose(self, fn):
        self.__dict__.setdefault('_undo', []).append(fn)

    def generic(self, d):
        """d == 0 is decided exactly by the solver; drawn inputs close to it are skipped"""

    def __getattr__(self, n):
        raise AttributeError(n)


class SymCtx(Base):
    symbolic = True

    def __init__(self, eng, params, tier):
        self.eng = eng
        self.params = params
        self.tier = tier
        self._covers = set()
        self.np = snp.NP
        self._world = None
        self._shims = {}
        self.obs = []

    def shim(self, name, mod):
        self._shims[name] = mod

    @property
    def rr(self):
        if self._world is None:
            self._world = World(self._shims)
        return self._world

    def hook_solver(self, which, fn):
        """replace scipy's nnls / lsq_linear; fn(A, b, *a, **k)"""
        setattr(self.eng, {'nnls': 'nnls_hook', 'lsq_linear': 'bvls_hook'}[which], fn)

    # inputs
    def real(self, name, lo=None, hi=None, strict=False):
        v = SymReal(self.eng.var(name, 'real'))
        if lo is not None:
            self.eng.assume_fast(v > self._c(lo) if strict else v >= self._c(lo))
        if hi is not None:
            self.eng.assume_fast(v < self._c(hi) if strict else v <= self._c(hi))
        return v

    def _c(self, x):
        return x if is_sym(x) else SymReal(E.to_frac(x))

    def reals(self, name, shape, lo=None, hi=None):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            o[i] = self.real(name + '_' + '_'.join(map(str, i)), lo, hi)
        return snp.mk(o, snp.F8)

    def int(self, name, lo=None, hi=None):
        v = SymInt(self.eng.var(name, 'int'))
        if lo is not None:
            self.eng.assume_fast(v >= lo)
        if hi is not None:
            self.eng.assume_fast(v <= hi)
        return v

    def ints(self, name, n, lo=None, hi=None):
        o = np.empty((n,), dtype=object)
        for i in range(n):
            o[i] = self.int(f'{name}_{i}', lo, hi)
        return snp.mk(o, snp.I8)

    def choice(self, name, n):
        """an index 0..n-1, made concrete by forking"""
        return int(self.int(name, 0, n - 1))

    def bool(self, name):
        return SymBool(self.eng.var(name, 'bool'))

    def flag(self, name):
        return bool(self.bool(name))

    def bools(self, name, n):
        o = np.empty((n,), dtype=object)
        for i in range(n):
            o[i] = self.bool(f'{name}_{i}')
        return snp.mk(o, snp.B1)

    def bv(self, name, width=64):
        return SymBV(self.eng.var(name, width))

    def bvs(self, name, n, width=64):
        o = np.empty((n,), dtype=object)
        for i in range(n):
            o[i] = self.bv(f'{name}_{i}', width)
        return snp.mk(o, snp.I8)

    def const(self, x):
        """exact constant"""
        if isinstance(x, (list, tuple, np.ndarray)):
            return self.arr(x)
        return SymReal(E.to_frac(x))

    def arr(self, x, dtype=None):
        """array of floats, held exactly"""
        def lift(v):
            if isinstance(v, (list, tuple)):
                return [lift(e) for e in v]
            v = norm_scalar(v)
            if isinstance(v, (Fraction,)) or (isinstance(v, (int, float)) and not isinstance(v, bool) and
                                              not E.special(v)):
                return SymReal(E.to_frac(v))
            return v
        if isinstance(x, np.ndarray):
            x = x.tolist() if not isinstance(x, snp.SArr) else snp.raw(x).tolist()
        r = snp.to_sarr(lift(list(x)))
        return r.astype(snp.F8) if dtype is None else r.astype(dtype)

    def oarr(self, x, dtype):
        return snp.to_sarr(list(x), dtype)

    def zeros(self, shape):
        return snp.zeros(shape)

    def intarr(self, x):
        r = snp.to_sarr(list(x))
        return r.astype(snp.I8)

    # assumptions and assertions
    def assume(self, c):
        self.eng.assume(c)

    def require(self, c):
        """assumption on the inputs known to be satisfiable: no feasibility query"""
        self.eng.assume_fast(c)

    def check(self, c, label, detail=''):
        self.eng.prove(c, label, detail)

    def eq(self, a, b, label, tol=None, detail=''):
        fa, fb = _flat(a), _flat(b)
        if len(fa) != len(fb):
            self.eng.prove(False, label, f'lengths {len(fa)} != {len(fb)}')
            return
        conds = []
        for x, y in zip(fa, fb):
            if isinstance(x, float) and x != x and isinstance(y, float) and y != y:
                continue
            if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
                conds.append(x is y or (isinstance(x, str) and isinstance(y, str) and x == y))
                continue
            if tol is not None and not E.special(x) and not E.special(y):
                d = SymReal.lift(x) - SymReal.lift(y)
                t = SymReal(E.to_frac(tol)) * (1 + abs(SymReal.lift(y)))
                conds.append(s_and(d <= t, -d <= t))
            else:
                conds.append(snp.truth(x == y) if is_sym(x) else (snp.truth(y == x)))
        self.eng.prove(s_and(*conds), label, detail)

    def le(self, a, b, label, detail=''):
        self.eng.prove(s_and(*[snp.truth(x <= y) for x, y in _bc(a, b)]), label, detail)

    def lt(self, a, b, label, detail=''):
        self.eng.prove(s_and(*[snp.truth(x < y) for x, y in _bc(a, b)]), label, detail)

    def fail(self, label, detail=''):
        self.eng.prove(False, label, detail)

    def isin(self, x, xs):
        return s_or(*[snp.truth(x == y) for y in xs])

    def sqrt(self, x):
        return SymReal.lift(x).sqrt()

    def observe(self, name, v):
        self.obs.append((name, v))

    def done(self):
        for u in reversed(self.__dict__.pop('_undo', [])):
            u()
        if self._world is not None:
            self._world.close()


def _bc(a, b):
    fa, fb = _flat(a), _flat(b)
    if len(fa) == 1 and len(fb) != 1:
        fa = fa * len(fb)
    if len(fb) == 1 and len(fa) != 1:
        fb = fb * len(fa)
    assert len(fa) == len(fb), (len(fa), len(fb))
    return list(zip(fa, fb))


class ConcCtx(Base):
    symbolic = False

    def __init__(self, values, params, tier):
        self.values = values
        self.params = params
        self.tier = tier
        self._covers = set()
        self.np = np
        self._world = None
        self._shims = {}
        self.obs = []
        self.failures = []
        self.nchecks = 0

    def shim(self, name, mod):
        self._shims[name] = mod

    @property
    def rr(self):
        if self._world is None:
            self._world = ConcreteWorld(self._shims)
        return self._world

    def hook_solver(self, which, fn):
        self.rr.patch('zscan', which, fn)

    def _v(self, name, default):
        v = self.values.get(name, default)
        if isinstance(v, str):
            f = Fraction(v)
            return float(f)
        return v

    def real(self, name, lo=None, hi=None, strict=False):
        d = 0.0
        if lo is not None:
            d = float(lo) + (0.5 if hi is None else 0.0)
            if hi is not None:
                d = (float(lo) + float(hi)) / 2
        elif hi is not None:
            d = float(hi) - 0.5
        return float(self._v(name, d))

    def reals(self, name, shape, lo=None, hi=None):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape)
        for i in np.ndindex(shape):
            o[i] = self.real(name + '_' + '_'.join(map(str, i)), lo, hi)
        return o

    def int(self, name, lo=None, hi=None):
        return int(self._v(name, 0 if lo is None else lo))

    def ints(self, name, n, lo=None, hi=None):
        return np.array([self.int(f'{name}_{i}', lo, hi) for i in range(n)], dtype=int)

    def choice(self, name, n):
        return self.int(name, 0, n - 1)

    def bool(self, name):
        return bool(self._v(name, False))

    flag = bool

    def bools(self, name, n):
        return np.array([self.bool(f'{name}_{i}') for i in range(n)], dtype=bool)

    def bv(self, name, width=64):
        v = int(self._v(name, 0)) & ((1 << width) - 1)
        return v - (1 << width) if v >> (width - 1) else v

    def bvs(self, name, n, width=64):
        return np.array([self.bv(f'{name}_{i}', width) for i in range(n)], dtype=np.int64)

    def const(self, x):
        if isinstance(x, (list, tuple, np.ndarray)):
            return self.arr(x)
        return float(x)

    def arr(self, x, dtype=float):
        if isinstance(x, np.ndarray):
            return x.astype(float)
        def low(v):
            return [low(e) for e in v] if isinstance(v, (list, tuple)) else float(v)
        return np.array(low(list(x)), dtype=float)

    def oarr(self, x, dtype):
        return np.array(list(x), dtype=dtype)

    def zeros(self, shape):
        return np.zeros(shape)

    def intarr(self, x):
        return np.array(list(x), dtype=int)

    def assume(self, c):
        if not bool(c):
            raise AssumptionFailed()

    require = assume

    def _res(self, ok, label, detail):
        self.nchecks += 1
        if not ok:
            self.failures.append((label, str(detail)[:300]))

    def check(self, c, label, detail=''):
        self._res(bool(c), label, detail)

    def eq(self, a, b, label, tol=None, detail=''):
        fa, fb = _flat(a), _flat(b)
        tol = 1e-7 if tol is None else max(tol, 1e-7)
        ok = len(fa) == len(fb)
        if ok:
            for x, y in zip(fa, fb):
                if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
                    ok = ok and (x == y)
                elif isinstance(x, float) or isinstance(y, float):
                    if x != x or y != y:
                        ok = ok and (x != x and y != y)
                    elif math.isinf(x) or math.isinf(y):
                        ok = ok and x == y
                    else:
                        ok = ok and abs(x - y) <= tol * (1 + abs(y))
                else:
                    ok = ok and x == y
        self._res(ok, label, f'{detail} got {fa} expected {fb}' if not ok else '')

    def le(self, a, b, label, detail=''):
        self._res(all(x <= y + 1e-9 * (1 + abs(y)) for x, y in _bc(a, b)), label, f'{detail} {a} <= {b}')

    def lt(self, a, b, label, detail=''):
        self._res(all(x < y + 1e-12 * (1 + abs(y)) for x, y in _bc(a, b)), label, f'{detail} {a} < {b}')

    def fail(self, label, detail=''):
        self._res(False, label, detail)

    def isin(self, x, xs):
        return any(x == y for y in xs)

    def sqrt(self, x):
        return math.sqrt(x)

    def observe(self, name, v):
        self.obs.append((name, v))

    def done(self):
        for u in reversed(self.__dict__.pop('_undo', [])):
            u()
        if self._world is not None:
            self._world.close()


class ProbeCtx(ConcCtx):
    """concrete run on inputs drawn on demand"""

    def __init__(self, rng, params, tier):
        super().__init__({}, params, tier)
        self.rng = rng

    def generic(self, d):
        if abs(d) < 1e-6:
            raise AssumptionFailed()

    def real(self, name, lo=None, hi=None, strict=False):
        if name not in self.values:
            r = self.rng
            a = -10 if lo is None and hi is None else (float(lo) if lo is not None else float(hi) - 10)
            b = a + 20 if hi is None else float(hi)
            v = r.choice([a, b, 0.0, 1.0] + [a + (b - a) * r.random()] * 6 + [round(a + (b - a) * r.random())] * 3)
            v = min(max(v, a), b)
            self.values[name] = str(Fraction(v))
        return float(Fraction(self.values[name]))

    def int(self, name, lo=None, hi=None):
        if name not in self.values:
            lo = 0 if lo is None else lo
            self.values[name] = self.rng.randint(lo, lo + 9 if hi is None else hi)
        return int(self.values[name])

    def bool(self, name):
        return bool(self.values.setdefault(name, self.rng.random() < 0.5))

    flag = bool

    def bv(self, name, width=64):
        return int(self.values.setdefault(name, self.rng.choice([self.rng.getrandbits(width), self.rng.getrandbits(width // 2)])))
