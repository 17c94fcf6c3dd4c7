"""Path-exploring symbolic executor: symbolic scalars and the exploration engine.

The code under test is ordinary Python, executed by the ordinary interpreter on
symbolic values.  Every truth test of a symbolic condition is a fork that the
SMT solver (z3) decides; every assertion is a query `path condition and not
assertion` that the solver must refute.
"""
import math
import time
from fractions import Fraction

import z3

INF = float('inf')


class EngineSignal(BaseException):
    """Base of control-flow signals; not an Exception so that `except Exception` misses it."""


class PathAbort(EngineSignal):
    """The current path is infeasible or was cut by an assumption."""


class Unsupported(EngineSignal):
    """The executor met something it cannot encode: the run is inconclusive."""


class Inconclusive(EngineSignal):
    """Solver gave no verdict."""


class Counterexample(EngineSignal):
    def __init__(self, label, model, detail=''):
        super().__init__(label)
        self.label = label
        self.model = model
        self.detail = detail


class BudgetExceeded(EngineSignal):
    pass


_ENGINE = None


def engine():
    if _ENGINE is None:
        raise Unsupported('symbolic value used outside the engine')
    return _ENGINE


def set_engine(e):
    global _ENGINE
    _ENGINE = e


# --------------------------------------------------------------------------
# exact rational-function normal form, used to discharge identities quickly
# --------------------------------------------------------------------------

class _Poly:
    """Polynomial arithmetic on dicts {monomial: Fraction}; a monomial is a sorted
    tuple of (atom id, power)."""
    LIMIT = 60000

    @staticmethod
    def const(c):
        return {(): c} if c != 0 else {}

    @staticmethod
    def add(a, b, sign=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + sign * c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return r

    @staticmethod
    def mul(a, b):
        if len(a) * len(b) > _Poly.LIMIT:
            raise OverflowError
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                if not m1:
                    m = m2
                elif not m2:
                    m = m1
                else:
                    d = dict(m1)
                    for k, p in m2:
                        d[k] = d.get(k, 0) + p
                    m = tuple(sorted(d.items()))
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        return r


def _num(e):
    return Fraction(e.numerator_as_long(), e.denominator_as_long()) if z3.is_rational_value(e) else Fraction(e.as_long())


class RatNorm:
    def __init__(self):
        self.cache = {}
        self.keep = []

    def norm(self, e):
        k = e.get_id()
        if k in self.cache:
            return self.cache[k]
        r = self._norm(e)
        self.cache[k] = r
        self.keep.append(e)
        return r

    def _atom(self, e):
        return ({((e.get_id(), 1),): Fraction(1)}, _Poly.const(Fraction(1)))

    def _norm(self, e):
        one = _Poly.const(Fraction(1))
        if z3.is_rational_value(e) or z3.is_int_value(e):
            return (_Poly.const(_num(e)), one)
        d = e.decl().kind()
        ch = e.children()
        if d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            n, dd = self.norm(ch[0])
            sg = 1 if d == z3.Z3_OP_ADD else -1
            for c in ch[1:]:
                n2, d2 = self.norm(c)
                if dd == d2:
                    n = _Poly.add(n, n2, sg)
                else:
                    n = _Poly.add(_Poly.mul(n, d2), _Poly.mul(n2, dd), sg)
                    dd = _Poly.mul(dd, d2)
            return (n, dd)
        if d == z3.Z3_OP_UMINUS:
            n, dd = self.norm(ch[0])
            return (_Poly.mul(n, _Poly.const(Fraction(-1))), dd)
        if d == z3.Z3_OP_MUL:
            n, dd = self.norm(ch[0])
            for c in ch[1:]:
                n2, d2 = self.norm(c)
                n = _Poly.mul(n, n2)
                dd = _Poly.mul(dd, d2)
            return (n, dd)
        if d == z3.Z3_OP_DIV:
            n, dd = self.norm(ch[0])
            n2, d2 = self.norm(ch[1])
            return (_Poly.mul(n, d2), _Poly.mul(dd, n2))
        if d == z3.Z3_OP_TO_REAL:
            if z3.is_int_value(ch[0]):
                return (_Poly.const(Fraction(ch[0].as_long())), one)
            return self._atom(e)
        return self._atom(e)

    def equal(self, a, b):
        try:
            n1, d1 = self.norm(a)
            n2, d2 = self.norm(b)
            if d1 == d2:
                return n1 == n2
            return _Poly.mul(n1, d2) == _Poly.mul(n2, d1)
        except OverflowError:
            return False
        except RecursionError:
            return False


# --------------------------------------------------------------------------
# symbolic scalars
# --------------------------------------------------------------------------

def to_frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(float(x))


def rv(fr):
    return z3.RatVal(fr.numerator, fr.denominator)


class Sym:
    __slots__ = ()
    __array_priority__ = 1e6

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .snp import SArr, to_sarr
        return SArr.__array_ufunc__(to_sarr(self), ufunc, method, *inputs, **kw)

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _is_conc_num(x):
    import numpy as np
    return isinstance(x, (int, float, Fraction, np.number, np.bool_)) and not isinstance(x, Sym)


def special(x):
    """concrete float that is nan or +-inf"""
    return isinstance(x, float) and (x != x or x in (INF, -INF))


def norm_scalar(x):
    """numpy scalar -> python scalar"""
    import numpy as np
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, np.str_):
        return str(x)
    return x


class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return engine().branch(self.e)

    @staticmethod
    def lift(x):
        x = norm_scalar(x)
        if isinstance(x, SymBool):
            return x.e
        if isinstance(x, bool):
            return z3.BoolVal(x)
        if isinstance(x, int) and x in (0, 1):
            return z3.BoolVal(bool(x))
        if isinstance(x, (SymInt, SymReal, SymBV)):
            r = x != 0
            return r.e if isinstance(r, SymBool) else z3.BoolVal(bool(r))
        raise TypeError(f'not a bool: {type(x)}')

    def _bin(self, o, f):
        if isinstance(norm_scalar(o), (bool, SymBool)):
            return mkbool(f(self.e, SymBool.lift(o)))
        if hasattr(o, '__array__') or isinstance(o, (list, tuple)):
            return NotImplemented
        return NotImplemented

    def __and__(self, o):
        o = norm_scalar(o)
        if o is True:
            return self
        if o is False:
            return False
        return self._bin(o, z3.And)
    __rand__ = __and__

    def __or__(self, o):
        o = norm_scalar(o)
        if o is False:
            return self
        if o is True:
            return True
        return self._bin(o, z3.Or)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, z3.Xor)
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def logical_not(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        o = norm_scalar(o)
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.e == SymBool.lift(o))
        if _is_conc_num(o) or isinstance(o, Sym):
            return self.as_int() == o
        return NotImplemented if hasattr(o, '__array__') else False

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))

    def __hash__(self):
        return hash(bool(self))

    def as_int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def as_real(self):
        return SymReal(z3.If(self.e, z3.RealVal(1), z3.RealVal(0)))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def _arith(self, o, op):
        if isinstance(o, SymBool):
            o = o.as_int()
        return op(self.as_int(), o)

    def __add__(self, o): return self._arith(o, lambda a, b: a + b)
    def __radd__(self, o): return self._arith(o, lambda a, b: b + a)
    def __sub__(self, o): return self._arith(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._arith(o, lambda a, b: b - a)

    def __mul__(self, o):
        if hasattr(o, '__array__'):
            return NotImplemented
        o = norm_scalar(o)
        if isinstance(o, SymBool):
            return self & o
        if isinstance(o, SymReal) or isinstance(o, float):
            if special(o):
                return o if bool(self) else float('nan')
            return ite(self, o, 0.0)
        return self._arith(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o): return self._arith(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._arith(o, lambda a, b: b / a)
    def __lt__(self, o): return self._arith(o, lambda a, b: a < b)
    def __le__(self, o): return self._arith(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._arith(o, lambda a, b: a > b)
    def __ge__(self, o): return self._arith(o, lambda a, b: a >= b)

    def __neg__(self):
        return -self.as_int()

    def __repr__(self):
        return f'SymBool({self.e})'


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class SymReal(Sym):
    """Real value: an exact Fraction (constant) or a z3 Real term."""
    __slots__ = ('v',)

    def __init__(self, v):
        if isinstance(v, (int, float)):
            v = to_frac(v)
        self.v = v

    @property
    def const(self):
        return isinstance(self.v, Fraction)

    @property
    def e(self):
        return rv(self.v) if isinstance(self.v, Fraction) else self.v

    @staticmethod
    def lift(x):
        """-> SymReal or special float, or None if not a number"""
        x = norm_scalar(x)
        if isinstance(x, SymReal):
            return x
        if isinstance(x, bool):
            return SymReal(Fraction(int(x)))
        if isinstance(x, (int, Fraction)):
            return SymReal(Fraction(x))
        if isinstance(x, float):
            return x if special(x) else SymReal(Fraction(x))
        if isinstance(x, SymInt):
            return SymReal(z3.ToReal(x.e))
        if isinstance(x, SymBool):
            return x.as_real()
        if isinstance(x, SymBV):
            return SymReal(z3.ToReal(z3.BV2Int(x.e)))
        import numpy as np
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return SymReal.lift(x.item())
        return None

    # -- arithmetic
    def _two(self, o):
        import numpy as np
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return None
        return SymReal.lift(o)

    def __add__(self, o):
        o = self._two(o)
        if o is None:
            return NotImplemented
        if special(o):
            return o
        if self.const and o.const:
            return SymReal(self.v + o.v)
        if self.const and self.v == 0:
            return o
        if o.const and o.v == 0:
            return self
        return SymReal(self.e + o.e)
    __radd__ = __add__

    def __neg__(self):
        return SymReal(-self.v)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._two(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = self._two(o)
        if o is None:
            return NotImplemented
        return (-self) + o

    def __mul__(self, o):
        o = self._two(o)
        if o is None:
            return NotImplemented
        if special(o):
            if o != o:
                return o
            if self > 0:
                return o
            if self < 0:
                return -o
            return float('nan')
        if self.const and o.const:
            return SymReal(self.v * o.v)
        for a, b in ((self, o), (o, self)):
            if a.const:
                if a.v == 0:
                    return SymReal(Fraction(0))
                if a.v == 1:
                    return b
        return SymReal(self.e * o.e)
    __rmul__ = __mul__

    @staticmethod
    def div(a, b):
        # a, b: SymReal or special floats
        if special(b):
            if b != b or (special(a)):
                return float('nan')
            return SymReal(Fraction(0))
        if special(a):
            if a != a:
                return a
            # inf / b : sign of b (b==0 -> inf, as +0)
            return a if (b >= 0) else -a
        if b.const:
            if b.v == 0:
                if a > 0:
                    return INF
                if a < 0:
                    return -INF
                return float('nan')
            if a.const:
                return SymReal(a.v / b.v)
            if b.v == 1:
                return a
            return SymReal(a.e * rv(1 / b.v))
        if b == 0:
            if a > 0:
                return INF
            if a < 0:
                return -INF
            return float('nan')
        if a.const and a.v == 0:
            return a
        return SymReal(a.e / b.e)

    def __truediv__(self, o):
        o = self._two(o)
        if o is None:
            return NotImplemented
        return SymReal.div(self, o)

    def __rtruediv__(self, o):
        o = self._two(o)
        if o is None:
            return NotImplemented
        return SymReal.div(o, self)

    def __floordiv__(self, o):
        q = self / o
        if q is NotImplemented:
            return q
        return q.floor() if isinstance(q, SymReal) else q

    def __rfloordiv__(self, o):
        q = self.__rtruediv__(o)
        if q is NotImplemented:
            return q
        return q.floor() if isinstance(q, SymReal) else q

    def __mod__(self, o):
        o = self._two(o)
        if o is None:
            return NotImplemented
        return self - (self // o) * o

    def floor(self):
        if self.const:
            return SymReal(Fraction(math.floor(self.v)))
        return SymReal(z3.ToReal(z3.ToInt(self.v)))

    def ceil(self):
        return -((-self).floor())

    def trunc(self):
        return self.floor() if self >= 0 else self.ceil()

    def to_int(self):
        if self.const:
            return int(self.v)
        if self >= 0:
            return SymInt.mk(z3.ToInt(self.v))
        return -SymInt.mk(z3.ToInt(-self.v))

    def __round__(self, n=None):
        if self.const:
            return round(self.v) if n is None else SymReal(round(self.v, n))
        x = self.v * z3.RealVal(10 ** (n or 0))
        f = z3.ToInt(x + z3.RealVal('1/2'))
        tie = z3.And(x + z3.RealVal('1/2') == z3.ToReal(f), f % 2 != 0)
        k = z3.If(tie, f - 1, f)
        return SymInt.mk(k) if n is None else SymReal(z3.ToReal(k) / z3.RealVal(10 ** n))

    def __pow__(self, o):
        o = norm_scalar(o)
        if isinstance(o, SymReal) and o.const and o.v.denominator == 1:
            o = int(o.v)
        if isinstance(o, float) and o == int(o):
            o = int(o)
        if isinstance(o, int) and not isinstance(o, bool):
            if o < 0:
                return 1 / (self ** (-o))
            r = SymReal(Fraction(1))
            b = self
            for _ in range(o):
                r = r * b
            return r
        if isinstance(o, float) and o == 0.5:
            return self.sqrt()
        return engine().uf_pow(self, o)

    def __rpow__(self, o):
        return engine().uf_pow(SymReal.lift(o), self)

    def __abs__(self):
        if self.const:
            return SymReal(abs(self.v))
        return SymReal(z3.If(self.v >= 0, self.v, -self.v))

    def sqrt(self):
        if self.const:
            if self.v < 0:
                return float('nan')
            n, d = math.isqrt(self.v.numerator), math.isqrt(self.v.denominator)
            if n * n == self.v.numerator and d * d == self.v.denominator:
                return SymReal(Fraction(n, d))
        if self < 0:
            return float('nan')
        return engine().sqrt(self)

    def exp(self):
        return engine().uf_exp(self)

    def log(self):
        return engine().uf_log(self)

    def log1p(self):
        return engine().uf_log(1 + self)

    def expm1(self):
        return engine().uf_exp(self) - 1

    def log10(self):
        return engine().uf_log(self) / to_frac(math.log(10))

    def log2(self):
        return engine().uf_log(self) / to_frac(math.log(2))

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def item(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        import numpy as np
        return np.dtype('f8')

    def astype(self, dt, **kw):
        from .snp import cast_scalar
        return cast_scalar(self, dt)

    def is_integer(self):
        if self.const:
            return self.v.denominator == 1
        return mkbool(z3.IsInt(self.v))

    # -- comparisons
    def _cmp(self, o, op, cop):
        o = self._two(o)
        if o is None:
            return NotImplemented
        if special(o):
            if o != o:
                return op == '!='
            big = o > 0
            return {'<': big, '<=': big, '>': not big, '>=': not big, '==': False, '!=': True}[op]
        if self.const and o.const:
            return cop(self.v, o.v)
        return mkbool(cop(self.e, o.e))

    def __lt__(self, o): return self._cmp(o, '<', lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, '<=', lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, '>', lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, '>=', lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        r = self._cmp(o, '==', lambda a, b: a == b)
        return r

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, '!=', lambda a, b: a != b)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        if self.const:
            return hash(self.v)
        raise Unsupported('hash of a symbolic real')

    def __float__(self):
        if self.const:
            return float(self.v)
        raise Unsupported('float() of a symbolic real (value leaves the encoded code)')

    def __int__(self):
        r = self.to_int()
        return int(r)

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __repr__(self):
        return f'SymReal({self.v})'

    def __format__(self, spec):
        return '<sym>'


class SymInt(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def mk(e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        return SymInt(e)

    def _lift(self, o):
        o = norm_scalar(o)
        if isinstance(o, SymInt):
            return o.e
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if isinstance(o, int):
            return z3.IntVal(o)
        if isinstance(o, SymBool):
            return o.as_int().e
        if isinstance(o, SymBV):
            return z3.BV2Int(o.e)
        return None

    def _bin(self, o, f, rop, refl=False):
        oe = self._lift(o)
        if oe is not None:
            return SymInt.mk(f(oe, self.e) if refl else f(self.e, oe))
        if isinstance(norm_scalar(o), (float, SymReal, Fraction)):
            me = SymReal(z3.ToReal(self.e))
            return rop(o, me) if refl else rop(me, o)
        return NotImplemented

    def __add__(self, o): return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, lambda a, b: a - b, True)
    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * int(self)
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)
    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * int(self)
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b, True)

    def __truediv__(self, o):
        if hasattr(o, '__array__') and not isinstance(o, Sym) and getattr(o, 'ndim', 0):
            return NotImplemented
        return SymReal(z3.ToReal(self.e)) / o

    def __rtruediv__(self, o):
        if hasattr(o, '__array__') and not isinstance(o, Sym) and getattr(o, 'ndim', 0):
            return NotImplemented
        return SymReal.div(SymReal.lift(o), SymReal(z3.ToReal(self.e)))

    @staticmethod
    def _fd(a, b):
        # python floor division from z3 div (euclidean for positive divisor)
        if z3.is_int_value(b) and b.as_long() > 0:
            return a / b
        return z3.If(b > 0, a / b, (-a) / (-b))

    def __floordiv__(self, o):
        oe = self._lift(o)
        if oe is None:
            return SymReal(z3.ToReal(self.e)) // o
        if bool(mkbool(oe == 0)):
            raise ZeroDivisionError
        return SymInt.mk(self._fd(self.e, oe))

    def __rfloordiv__(self, o):
        oe = self._lift(o)
        if bool(mkbool(self.e == 0)):
            raise ZeroDivisionError
        return SymInt.mk(self._fd(oe, self.e))

    def __mod__(self, o):
        oe = self._lift(o)
        if oe is None:
            return SymReal(z3.ToReal(self.e)) % o
        if bool(mkbool(oe == 0)):
            raise ZeroDivisionError
        return SymInt.mk(self.e - oe * self._fd(self.e, oe))

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % int(self)
        oe = self._lift(o)
        if bool(mkbool(self.e == 0)):
            raise ZeroDivisionError
        return SymInt.mk(oe - self.e * self._fd(oe, self.e))

    def __divmod__(self, o):
        return (self // o, self % o)

    def __neg__(self): return SymInt.mk(-self.e)
    def __pos__(self): return self
    def __abs__(self): return SymInt.mk(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o):
        if isinstance(o, int) and o >= 0:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        return SymReal(z3.ToReal(self.e)) ** o

    def __rpow__(self, o):
        return o ** int(self)

    def _cmp(self, o, op):
        oe = self._lift(o)
        if oe is not None:
            return mkbool(op(self.e, oe))
        if isinstance(norm_scalar(o), (float, SymReal, Fraction)):
            return op(SymReal(z3.ToReal(self.e)), o)
        return NotImplemented

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, lambda a, b: a != b)

    def __bool__(self):
        return bool(self != 0)

    def _bits(self, o, f):
        raise Unsupported('bit operation on a symbolic integer')

    def __and__(self, o):
        # masks of the form 2**k-1 are modulo; anything else needs a bit-vector
        o = norm_scalar(o)
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        raise Unsupported('bitwise and on a symbolic (mathematical) integer')
    __rand__ = __and__

    def __or__(self, o):
        raise Unsupported('bitwise or on a symbolic (mathematical) integer')
    __ror__ = __or__

    def __lshift__(self, o):
        return self * (2 ** int(o))

    def __rshift__(self, o):
        return self // (2 ** int(o))

    def __int__(self):
        return engine().concretize(self.e)

    def __index__(self):
        return engine().concretize(self.e)

    def __float__(self):
        return float(engine().concretize(self.e))

    def __hash__(self):
        return hash(engine().concretize(self.e))

    def __round__(self, n=None):
        return self

    def __repr__(self):
        return f'SymInt({self.e})'

    def __str__(self):
        return str(int(self))

    def __format__(self, spec):
        return format(int(self), spec)

    def item(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def dtype(self):
        import numpy as np
        return np.dtype('i8')

    def astype(self, dt, **kw):
        from .snp import cast_scalar
        return cast_scalar(self, dt)


class SymBV(Sym):
    """Bit-vector integer (two's complement, width w), for bit masks."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def w(self):
        return self.e.size()

    def _lift(self, o):
        o = norm_scalar(o)
        if isinstance(o, SymBV):
            if o.w == self.w:
                return o.e
            return z3.SignExt(self.w - o.w, o.e) if o.w < self.w else z3.Extract(self.w - 1, 0, o.e)
        if isinstance(o, (int, bool)):
            return z3.BitVecVal(int(o), self.w)
        if isinstance(o, SymBool):
            return z3.If(o.e, z3.BitVecVal(1, self.w), z3.BitVecVal(0, self.w))
        return None

    @staticmethod
    def mk(e):
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_signed_long()
        return SymBV(e)

    def _bin(self, o, f, refl=False):
        oe = self._lift(o)
        if oe is None:
            return NotImplemented
        return SymBV.mk(f(oe, self.e) if refl else f(self.e, oe))

    def __and__(self, o): return self._bin(o, lambda a, b: a & b)
    __rand__ = __and__
    def __or__(self, o): return self._bin(o, lambda a, b: a | b)
    __ror__ = __or__
    def __xor__(self, o): return self._bin(o, lambda a, b: a ^ b)
    __rxor__ = __xor__
    def __invert__(self): return SymBV.mk(~self.e)
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __lshift__(self, o): return self._bin(o, lambda a, b: a << b)
    def __rlshift__(self, o): return self._bin(o, lambda a, b: a << b, True)
    def __rshift__(self, o): return self._bin(o, lambda a, b: a >> b)
    def __rrshift__(self, o): return self._bin(o, lambda a, b: a >> b, True)

    def __floordiv__(self, o):
        o = norm_scalar(o)
        if isinstance(o, int) and o > 0 and (o & (o - 1)) == 0:
            return SymBV.mk(self.e >> (o.bit_length() - 1))
        raise Unsupported('division of a bit-vector')

    def __mod__(self, o):
        o = norm_scalar(o)
        if isinstance(o, int) and o > 0 and (o & (o - 1)) == 0:
            return SymBV.mk(self.e & (o - 1))
        raise Unsupported('modulo of a bit-vector')

    def __neg__(self): return SymBV.mk(-self.e)

    def _cmp(self, o, f):
        if o is None or isinstance(o, str):
            return NotImplemented
        oe = self._lift(o)
        if oe is None:
            return NotImplemented
        return mkbool(f(self.e, oe))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)

    def __bool__(self):
        return bool(self != 0)

    def __int__(self):
        return engine().concretize(self.e)

    __index__ = __int__

    def __hash__(self):
        return hash(int(self))

    def __float__(self):
        return float(int(self))

    def item(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def dtype(self):
        import numpy as np
        return np.dtype('i8')

    def astype(self, dt, **kw):
        from .snp import cast_scalar
        return cast_scalar(self, dt)

    def __repr__(self):
        return f'SymBV({self.e})'


def is_sym(x):
    return isinstance(x, Sym)


def ite(c, a, b):
    """if-then-else on scalars; merges when possible, forks when it must."""
    c = norm_scalar(c)
    if not isinstance(c, SymBool):
        return a if c else b
    a, b = norm_scalar(a), norm_scalar(b)
    if a is b:
        return a
    if special(a) or special(b):
        if special(a) and special(b) and (a == b or (a != a and b != b)):
            return a
        return a if bool(c) else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.If(c.e, SymBool.lift(a), SymBool.lift(b)))
    if isinstance(a, SymBV) or isinstance(b, SymBV):
        m = a if isinstance(a, SymBV) else b
        x, y = m._lift(a), m._lift(b)
        if x is not None and y is not None:
            return SymBV.mk(z3.If(c.e, x, y))
        return a if bool(c) else b
    if isinstance(a, (int, SymInt, bool, SymBool)) and isinstance(b, (int, SymInt, bool, SymBool)):
        if not is_sym(a) and not is_sym(b) and a == b and isinstance(a, bool) == isinstance(b, bool):
            return a
        d = SymInt(z3.IntVal(0))
        return SymInt.mk(z3.If(c.e, d._lift(a), d._lift(b)))
    ra, rb = SymReal.lift(a) if not isinstance(a, str) else None, SymReal.lift(b) if not isinstance(b, str) else None
    if ra is None or rb is None:
        return a if bool(c) else b
    if ra.const and rb.const and ra.v == rb.v:
        return ra
    return SymReal(z3.If(c.e, ra.e, rb.e))


def s_and(*xs):
    es = []
    for x in xs:
        x = norm_scalar(x)
        if isinstance(x, SymBool):
            es.append(x.e)
        elif not bool(x):
            return False
    if not es:
        return True
    return mkbool(z3.And(*es))


def s_or(*xs):
    es = []
    for x in xs:
        x = norm_scalar(x)
        if isinstance(x, SymBool):
            es.append(x.e)
        elif bool(x):
            return True
    if not es:
        return False
    return mkbool(z3.Or(*es))


def s_not(x):
    x = norm_scalar(x)
    return mkbool(z3.Not(x.e)) if isinstance(x, SymBool) else (not bool(x))


# --------------------------------------------------------------------------
# exploration
# --------------------------------------------------------------------------

class Stats(dict):
    def add(self, k, n=1):
        self[k] = self.get(k, 0) + n


class Engine:
    def __init__(self, max_paths=200000, deadline=None, branch_timeout_ms=3000,
                 prove_timeout_ms=20000, nonlinear=False, seed=1):
        self.max_paths = max_paths
        self.deadline = deadline
        self.branch_to = branch_timeout_ms
        self.prove_to = prove_timeout_ms
        self.nonlinear = nonlinear
        self.seed = seed
        self.stats = Stats(paths=0, queries=0, unsat=0, sat=0, unknown=0, branches=0, checks=0,
                           trivially_true=0, normal_form=0)
        self.solver_s = 0.0
        self.labels = {}
        self.covers = {}
        self.worklist = [[]]

    # ---- per path
    def start_path(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pc = []
        self.known = {}
        self.keep = []
        self.solver = z3.Solver()
        self.solver.set('random_seed', self.seed)
        self.solver.set('timeout', self.branch_to)
        self.model = None
        self.vars = {}
        self.poison = None
        self.fresh = 0
        self.rn = RatNorm()
        self.ufapps = {'exp': [], 'log': [], 'pow': []}
        self.path_has_check = False

    def tick(self):
        if self.poison is not None:
            raise self.poison
        if self.deadline is not None and time.time() > self.deadline:
            self.raise_(BudgetExceeded('time budget exceeded'))

    def raise_(self, exc):
        self.poison = exc
        raise exc

    def add(self, e):
        self.pc.append(e)
        self.solver.add(e)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(e, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def _check(self, *assump):
        t = time.time()
        self.stats.add('queries')
        r = self.solver.check(*assump)
        self.solver_s += time.time() - t
        self.stats.add(str(r))
        return r

    def feasible(self, e):
        """Is pc and e satisfiable?  unknown counts as feasible (over-approximation)."""
        if self.model is not None:
            try:
                if z3.is_true(self.model.eval(e, model_completion=True)):
                    return True
            except z3.Z3Exception:
                pass
        self.solver.push()
        self.solver.add(e)
        r = self._check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        if r == z3.unknown:
            r2, m = self._hard(self.pc + [e], self.branch_to)
            if r2 == z3.unsat:
                return False
            return True
        if r == z3.sat:
            if self.model is None:
                self.model = m
            self._lastm = m
            return True
        return False

    def _hard(self, es, timeout):
        """non-incremental strategies for hard (nonlinear) queries"""
        t = time.time()
        self.stats.add('queries')
        try:
            for tac in ('qfnra-nlsat', 'default'):
                g = es
                if tac == 'qfnra-nlsat':
                    s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith',
                                'elim-term-ite', 'tseitin-cnf', 'qfnra-nlsat').solver()
                else:
                    s = z3.SolverFor('QF_NIRA') if False else z3.Solver()
                s.set('timeout', int(timeout))
                s.add(*g)
                try:
                    r = s.check()
                except z3.Z3Exception:
                    r = z3.unknown
                if r == z3.sat:
                    self.stats.add('sat')
                    return r, s.model()
                if r == z3.unsat:
                    self.stats.add('unsat')
                    return r, None
            self.stats.add('unknown')
            return z3.unknown, None
        finally:
            self.solver_s += time.time() - t

    def branch(self, e):
        self.tick()
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        neg = False
        if z3.is_not(e):
            e = e.arg(0)
            neg = True
        k = e.get_id()
        if k in self.known:
            return self.known[k] != neg
        d = self._decide(e)
        self.known[k] = d
        self.keep.append(e)
        return d != neg

    def _decide(self, e):
        self.stats.add('branches')
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            self.add(e if d else z3.Not(e))
            return d
        ne = z3.Not(e)
        ft = self.feasible(e)
        ff = self.feasible(ne)
        if not ft and not ff:
            self.raise_(PathAbort('infeasible'))
        self.pos += 1
        if ft and ff:
            self.worklist.append(self.trace + [False])
            d = True
        else:
            d = ft
        self.trace.append(d)
        self.add(e if d else ne)
        return d

    def concretize(self, e):
        self.tick()
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_bv_value(e):
            return e.as_signed_long()
        while True:
            if self.pos < len(self.prefix):
                ent = self.prefix[self.pos]
                v, d = ent
                self.pos += 1
                self.trace.append(ent)
                c = (e == v)
                if d:
                    self.add(c)
                    return v
                self.add(z3.Not(c))
                continue
            if self.model is None:
                r = self._check()
                if r == z3.unsat:
                    self.raise_(PathAbort('infeasible'))
                if r == z3.unknown:
                    self.raise_(Inconclusive('concretize: unknown'))
                self.model = self.solver.model()
            mv = self.model.eval(e, model_completion=True)
            v = mv.as_signed_long() if z3.is_bv_value(mv) else mv.as_long()
            c = (e == v)
            if self.feasible(z3.Not(c)):
                self.worklist.append(self.trace + [(v, False)])
            self.pos += 1
            self.trace.append((v, True))
            self.add(c)
            return v

    def assume(self, c):
        self.tick()
        c = norm_scalar(c)
        if not isinstance(c, SymBool):
            if not bool(c):
                self.raise_(PathAbort('assumption'))
            return
        if self.pos < len(self.prefix):
            self.add(c.e)
            return
        if not self.feasible(c.e):
            self.raise_(PathAbort('assumption'))
        self.add(c.e)

    def assume_fast(self, c):
        c = norm_scalar(c)
        if isinstance(c, SymBool):
            self.add(c.e)
        elif not bool(c):
            self.raise_(PathAbort('assumption'))

    # ---- variables
    def var(self, name, sort):
        if name in self.vars:
            return self.vars[name]
        v = {'real': z3.Real, 'int': z3.Int, 'bool': z3.Bool}[sort](name) if isinstance(sort, str) \
            else z3.BitVec(name, sort)
        self.vars[name] = v
        return v

    def fresh_real(self, hint='t'):
        self.fresh += 1
        return z3.Real(f'!{hint}{self.fresh}')

    def sqrt(self, x):
        key = ('sqrt', x.e.get_id())
        if key in self.known:
            return self.known[key]
        s = self.fresh_real('sqrt')
        self.add(s >= 0)
        self.add(s * s == x.e)
        r = SymReal(s)
        self.known[key] = r
        self.keep.append(x.e)
        return r

    # uninterpreted transcendental functions with instantiated axioms
    _EXP = z3.Function('exp!', z3.RealSort(), z3.RealSort())
    _LOG = z3.Function('log!', z3.RealSort(), z3.RealSort())
    _POW = z3.Function('pow!', z3.RealSort(), z3.RealSort(), z3.RealSort())

    def _app(self, kind, f, *args):
        for u in self.ufapps[kind]:
            if all(self.rn.equal(u.arg(i), a) for i, a in enumerate(args)):
                return u, False
        t = f(*[z3.simplify(a) for a in args])
        new = all(t.get_id() != u.get_id() for u in self.ufapps[kind])
        if new:
            self.keep.append(t)
            self.ufapps[kind].append(t)
        return t, new

    def uf_exp(self, x):
        x = SymReal.lift(x)
        if special(x):
            return math.exp(x) if x == x else x
        if x.const and x.v == 0:
            return SymReal(Fraction(1))
        n = len(self.ufapps['exp'])
        for i in range(n):
            u = self.ufapps['exp'][i]
            if self.rn.equal(u.arg(0), -x.e):
                return 1 / SymReal(u)
            for v in self.ufapps['exp'][:i + 1]:
                if self.rn.equal(u.arg(0) + v.arg(0), x.e):
                    return SymReal(u) * SymReal(v)
                if self.rn.equal(u.arg(0) - v.arg(0), x.e):
                    return SymReal(u) / SymReal(v)
                if self.rn.equal(v.arg(0) - u.arg(0), x.e):
                    return SymReal(v) / SymReal(u)
        t, new = self._app('exp', self._EXP, x.e)
        if new:
            a = t.arg(0)
            self.add(t > 0)
            self.add(t >= 1 + a)
            self.add(z3.And(z3.Implies(a <= 0, t <= 1), z3.Implies(a >= 0, t >= 1)))
            for u in self.ufapps['exp'][:-1]:
                b = u.arg(0)
                self.add(z3.And(z3.Implies(a < b, t < u), z3.Implies(a > b, t > u), z3.Implies(a == b, t == u)))
        return SymReal(t)

    def uf_log(self, x):
        x = SymReal.lift(x)
        if special(x):
            return math.log(x) if x > 0 else float('nan')
        if x <= 0:
            return -INF if x == 0 else float('nan')
        if x.const and x.v == 1:
            return SymReal(Fraction(0))
        for i, u in enumerate(self.ufapps['log']):
            if self.rn.equal(u.arg(0) * x.e, z3.RealVal(1)):
                return -SymReal(u)
            for v in self.ufapps['log'][:i + 1]:
                if self.rn.equal(u.arg(0) * v.arg(0), x.e):
                    return SymReal(u) + SymReal(v)
                if self.rn.equal(u.arg(0), x.e * v.arg(0)):
                    return SymReal(u) - SymReal(v)
                if self.rn.equal(v.arg(0), x.e * u.arg(0)):
                    return SymReal(v) - SymReal(u)
        t, new = self._app('log', self._LOG, x.e)
        if new:
            a = t.arg(0)
            self.add(t <= a - 1)
            self.add(z3.And(z3.Implies(a <= 1, t <= 0), z3.Implies(a >= 1, t >= 0)))
            for u in self.ufapps['log'][:-1]:
                b = u.arg(0)
                self.add(z3.And(z3.Implies(a < b, t < u), z3.Implies(a > b, t > u), z3.Implies(a == b, t == u)))
        return SymReal(t)

    def uf_pow(self, x, y):
        x, y = SymReal.lift(x), SymReal.lift(y)
        if special(x) or special(y):
            raise Unsupported('pow of special value')
        if x.const and y.const:
            try:
                return SymReal.lift(float(x.v) ** float(y.v))
            except (OverflowError, ZeroDivisionError):
                return INF
        if x < 0:
            return float('nan')
        if x == 0:
            return SymReal(Fraction(0)) if y > 0 else INF
        t, new = self._app('pow', self._POW, x.e, y.e)
        if new:
            a, b = t.arg(0), t.arg(1)
            self.add(t > 0)
            self.add(z3.Implies(b > 0, z3.And(z3.Implies(a <= 1, t <= 1), z3.Implies(a >= 1, t >= 1))))
            self.add(z3.Implies(b < 0, z3.And(z3.Implies(a <= 1, t >= 1), z3.Implies(a >= 1, t <= 1))))
            self.add(z3.Implies(b == 0, t == 1))
            for u in self.ufapps['pow'][:-1]:
                c, d = u.arg(0), u.arg(1)
                if z3.eq(d, b):
                    self.add(z3.Implies(b > 0, z3.And(z3.Implies(a < c, t < u), z3.Implies(a > c, t > u),
                                                       z3.Implies(a == c, t == u))))
        return SymReal(t)

    # ---- assertions
    def prove(self, cond, label, detail=''):
        """Assert cond on this path: the solver must refute pc and not cond."""
        self.tick()
        self.stats.add('checks')
        self.labels[label] = self.labels.get(label, 0) + 1
        self.path_has_check = True
        cond = norm_scalar(cond)
        if not isinstance(cond, SymBool):
            if bool(cond):
                self.stats.add('trivially_true')
                return
            self._fail(label, z3.BoolVal(True), detail)
            return
        e = z3.simplify(cond.e)
        if z3.is_true(e):
            self.stats.add('trivially_true')
            return
        parts = list(e.children()) if z3.is_and(e) else [e]
        rest = []
        for p in parts:
            if z3.is_eq(p) and z3.is_arith(p.arg(0)) and self.rn.equal(p.arg(0), p.arg(1)):
                self.stats.add('normal_form')
                continue
            rest.append(p)
        if not rest:
            return
        goal = z3.Not(z3.And(*rest)) if len(rest) > 1 else z3.Not(rest[0])
        if self.model is not None:
            try:
                if z3.is_true(self.model.eval(goal, model_completion=True)):
                    self._fail(label, goal, detail)
            except z3.Z3Exception:
                pass
        for p in rest:
            g = z3.Not(p)
            r = z3.unknown
            if not self.nonlinear:
                self.solver.push()
                self.solver.set('timeout', int(min(self.prove_to, 4000)))
                self.solver.add(g)
                r = self._check()
                self.solver.pop()
                self.solver.set('timeout', self.branch_to)
            if r == z3.unknown:
                r, _ = self._hard(self.pc + [g], self.prove_to)
            if r == z3.sat:
                self._fail(label, g, detail)
            if r == z3.unknown:
                # last resort: search for a counterexample around models of the path
                m = self._guess(g)
                if m is not None:
                    self.raise_(Counterexample(label, m, detail))
                self.raise_(Inconclusive(f'solver gave no verdict on {label}'))

    def _guess(self, g):
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*self.pc)
        if s.check() != z3.sat:
            return None
        m = s.model()
        names = list(self.vars.items())
        for keepfree in range(len(names)):
            s2 = z3.Solver()
            s2.set('timeout', 2000)
            s2.add(*self.pc)
            s2.add(g)
            for i, (n, v) in enumerate(names):
                if i % len(names) == keepfree or (i + 1) % len(names) == keepfree:
                    continue
                s2.add(v == m.eval(v, model_completion=True))
            if s2.check() == z3.sat:
                return self.extract(s2.model())
        return None

    def extract(self, model):
        out = {}
        for n, v in self.vars.items():
            mv = model.eval(v, model_completion=True)
            if z3.is_true(mv) or z3.is_false(mv):
                out[n] = bool(z3.is_true(mv))
            elif z3.is_bv_value(mv):
                out[n] = mv.as_signed_long()
            elif z3.is_int_value(mv):
                out[n] = mv.as_long()
            elif z3.is_rational_value(mv):
                f = Fraction(mv.numerator_as_long(), mv.denominator_as_long())
                out[n] = str(f)
            elif z3.is_algebraic_value(mv):
                f = mv.approx(20)
                out[n] = str(Fraction(f.numerator_as_long(), f.denominator_as_long()))
            else:
                out[n] = str(mv)
        return out

    def _fail(self, label, goal, detail):
        m = self.nice_model([goal])
        if m is None:
            # goal not confirmed satisfiable: no verdict
            self.raise_(Inconclusive(f'no model for {label}'))
        self.raise_(Counterexample(label, m, detail))

    def nice_model(self, extra, budget=8.0):
        """A model of pc+extra whose values survive conversion to floats: variables are
        pinned, one by one, to short dyadic values when the solver agrees."""
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', 4000)
        s.add(*self.pc)
        s.add(*extra)
        r = s.check()
        if r != z3.sat:
            r, m = self._hard(self.pc + list(extra), self.prove_to)
            if r != z3.sat:
                return None
            return self.extract(m)
        m = s.model()
        s.set('timeout', 700)
        for n, v in self.vars.items():
            if time.time() - t0 > budget:
                break
            if not z3.is_arith(v) or v.is_int():
                continue
            mv = m.eval(v, model_completion=True)
            if z3.is_rational_value(mv):
                f = Fraction(mv.numerator_as_long(), mv.denominator_as_long())
            elif z3.is_algebraic_value(mv):
                a = mv.approx(10)
                f = Fraction(a.numerator_as_long(), a.denominator_as_long())
            else:
                continue
            cands = []
            for q in (1, 4, 64, 4096):
                c = Fraction(round(f * q), q)
                if c not in cands:
                    cands.append(c)
            if f.denominator & (f.denominator - 1) == 0 and f.denominator <= 4096:
                cands = [f]
            for c in cands:
                s.push()
                s.add(v == rv(c))
                if s.check() == z3.sat:
                    m = s.model()
                    break
                s.pop()
        return self.extract(m)

    # ---- driver
    def explore(self, body, on_path_end=None):
        """body(engine) is run once per path.  Returns list of counterexamples."""
        cex = []
        while self.worklist:
            if self.stats['paths'] >= self.max_paths:
                raise BudgetExceeded(f"path bound {self.max_paths} exceeded")
            prefix = self.worklist.pop()
            self.start_path(prefix)
            set_engine(self)
            try:
                body(self)
                if self.poison is not None:
                    raise self.poison
                self.stats.add('paths')
                if on_path_end is not None:
                    on_path_end(self)
            except PathAbort:
                self.stats.add('aborted')
                continue
            except Counterexample as c:
                self.stats.add('paths')
                cex.append(c)
                if len(cex) >= 3:
                    return cex
            finally:
                set_engine(None)
        return cex
