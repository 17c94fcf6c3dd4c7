"""Stand-ins for third-party collaborators, able to carry symbolic values."""
import types

import numpy as np

from . import engine as E
from . import snp
from .engine import SymReal, Unsupported, is_sym, norm_scalar, s_and, s_or


# ------------------------------------------------------------------ scipy.sparse

class Matrixish:
    """minimal np.matrix-like result of sparse.sum(axis=1): shape (n, 1)"""


class Csr:
    def __init__(self, dense, struct=None):
        self._d = snp.raw(snp.to_obj(dense))
        self.shape = self._d.shape
        n, m = self.shape
        idx, ptr, dat = [], [0], []
        for i in range(n):
            for j in range(m):
                x = norm_scalar(self._d[i, j])
                keep = (struct[i][j] if struct is not None else
                        (is_sym(x) and not (isinstance(x, SymReal) and x.const and x.v == 0)) or
                        (not is_sym(x) and x != 0))
                if keep:
                    idx.append(j)
                    dat.append(x)
            ptr.append(len(idx))
        self.indices = np.array(idx, dtype=np.int32)
        self.indptr = np.array(ptr, dtype=np.int32)
        o = np.empty(len(dat), dtype=object)
        for i, x in enumerate(dat):
            o[i] = x
        self.data = snp.mk(o, snp.F8)
        self.dtype = snp.F8

    def dot(self, x):
        x = snp.to_obj(x)
        return snp.matmul(snp.mk(self._d, snp.F8), x)

    __matmul__ = dot

    def toarray(self):
        return snp.mk(self._d.copy(), snp.F8)

    todense = toarray

    def tocsr(self, copy=False):
        return self

    tocsc = tocoo = tocsr

    @property
    def T(self):
        return Csr(self._d.T.copy())

    def transpose(self):
        return self.T

    def copy(self):
        return Csr(self._d.copy())

    def sum(self, axis=None):
        d = snp.mk(self._d, snp.F8)
        r = d.sum(axis)
        return r if axis is None else (r[:, None] if axis in (1, -1) else r[None, :])

    def __reduce__(self):
        return (Csr, (snp.mk(self._d, snp.F8),))

    def __mul__(self, o):
        if is_sym(o) or np.isscalar(o):
            return Csr(snp.raw(snp.mk(self._d, snp.F8) * o))
        return self.dot(o)


class CsrFromParts(Csr):
    def __init__(self, parts, shape):
        data, indices, indptr = parts
        d = np.empty(shape, dtype=object)
        d[...] = 0.0
        st = [[False] * shape[1] for _ in range(shape[0])]
        for i in range(shape[0]):
            for p in range(int(indptr[i]), int(indptr[i + 1])):
                j = int(indices[p])
                d[i, j] = d[i, j] + norm_scalar(snp.raw(snp.to_obj(data))[p])
                st[i][j] = True
        super().__init__(snp.mk(d, snp.F8), st)


class Dia:
    format = 'dia'

    def __init__(self, arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, Dia):
            arg, shape = (arg.data, arg.offsets), arg.shape
        data, offsets = arg
        self.data = data if isinstance(data, snp.SArr) else snp.to_sarr(data)
        if copy:
            self.data = self.data.copy()
        off = np.atleast_1d(np.array([int(x) for x in np.asarray(snp.nat(offsets)).reshape(-1)]))
        self.offsets = off
        self.shape = tuple(int(x) for x in shape)
        self.dtype = snp.F8
        if self.data.ndim == 1:
            self.data = self.data[None, :]
        if self.data.shape[0] != len(off):
            raise ValueError('number of diagonals does not match the number of offsets')
        if len(set(off.tolist())) != len(off):
            raise ValueError('offset array contains duplicate values')

    def _dense(self):
        n, m = self.shape
        d = np.empty((n, m), dtype=object)
        d[...] = 0.0
        st = [[False] * m for _ in range(n)]
        o = snp.raw(self.data)
        for k, off in enumerate(self.offsets):
            for j in range(min(m, o.shape[1])):
                i = j - int(off)
                if 0 <= i < n:
                    d[i, j] = norm_scalar(o[k, j])
                    st[i][j] = True
        return d, st

    def toarray(self):
        return snp.mk(self._dense()[0], snp.F8)

    todense = toarray

    def tocsr(self, copy=False):
        d, st = self._dense()
        return Csr(snp.mk(d, snp.F8), None)

    def todia(self, copy=False):
        return self

    def dot(self, x):
        return self.tocsr().dot(x)

    __matmul__ = dot

    def sum(self, axis=None):
        r = self.toarray().sum(axis)
        return r if axis is None else (r[:, None] if axis in (1, -1) else r[None, :])

    def copy(self):
        return Dia((self.data.copy(), self.offsets.copy()), self.shape)

    def diagonal(self, k=0):
        return snp.mk(np.diagonal(self._dense()[0], k).copy(), snp.F8)

    @property
    def T(self):
        return self.tocsr().T

    def __reduce__(self):
        return (Dia, ((self.data, self.offsets), self.shape))


class SparseShim(types.ModuleType):
    def __init__(self):
        super().__init__('scipy.sparse')
        self.dia_matrix = Dia
        self.dia_array = Dia

    @staticmethod
    def csr_matrix(arg, shape=None, **kw):
        if isinstance(arg, tuple) and len(arg) == 3:
            return CsrFromParts(arg, shape)
        if isinstance(arg, (Dia, Csr)):
            return arg.tocsr()
        return Csr(snp.to_sarr(arg))

    csr_array = csr_matrix

    @staticmethod
    def csc_matrix(arg, shape=None, **kw):
        if isinstance(arg, tuple) and len(arg) == 3:
            return CsrFromParts(arg, shape[::-1]).T
        return SparseShim.csr_matrix(arg, shape)

    csc_array = csc_matrix

    @staticmethod
    def coo_matrix(arg, shape=None, **kw):
        if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
            d = np.empty(shape, dtype=object)
            d[...] = 0.0
            data = snp.raw(snp.to_obj(arg[0])).reshape(-1)
            for v, i, j in zip(data, np.asarray(snp.nat(arg[1][0])).reshape(-1), np.asarray(snp.nat(arg[1][1])).reshape(-1)):
                d[int(i), int(j)] = d[int(i), int(j)] + norm_scalar(v)
            return Csr(snp.mk(d, snp.F8))
        return SparseShim.csr_matrix(arg, shape)

    coo_array = coo_matrix

    @staticmethod
    def identity(n, dtype=None, format=None):
        d = Dia((snp.FUNCS['ones']((1, int(n))), [0]), (n, n))
        return d.tocsr() if format == 'csr' else d

    eye = identity

    @staticmethod
    def issparse(x):
        return isinstance(x, (Dia, Csr))

    isspmatrix = issparse

    @staticmethod
    def spdiags(data, offsets, m, n, format=None):
        return Dia((data, offsets), (m, n))


# ------------------------------------------------------------------ scipy.optimize contracts

def nnls_stub(A, b, maxiter=None, **kw):
    """contract: x >= 0 and x satisfies the KKT conditions of min |A x - b|"""
    h = getattr(E.engine(), 'nnls_hook', None)
    if h is not None:
        return h(A, b)
    if not snp._deep_sym(A) and not snp._deep_sym(b):
        import scipy.optimize
        x, r = scipy.optimize.nnls(snp.nat(snp.to_sarr(A)), snp.nat(snp.to_sarr(b)))
        return snp.from_concrete(x), r
    return bounded_lsq(A, b, None)


def lsq_linear_stub(A, b, bounds=(-np.inf, np.inf), method='trf', **kw):
    h = getattr(E.engine(), 'bvls_hook', None)
    if h is not None:
        return h(A, b, bounds, method)
    lo, hi = bounds[0], bounds[1]
    x, _ = bounded_lsq(A, b, (lo, hi))
    return types.SimpleNamespace(x=x, success=True, status=1)


def bounded_lsq(A, b, bounds):
    """fresh x constrained by feasibility and the KKT conditions (the solver's contract)"""
    eng = E.engine()
    A, b = snp.to_sarr(A), snp.to_sarr(b)
    if A.ndim != 2 or b.ndim != 1 or A.shape[0] != b.shape[0]:
        raise ValueError('Incompatible dimensions')
    n = A.shape[1]
    o = np.empty(n, dtype=object)
    for i in range(n):
        o[i] = SymReal(eng.fresh_real('lsq'))
    x = snp.mk(o, snp.F8)
    res = snp.matmul(A, x) - b
    g = snp.matmul(A.T, res)
    for i in range(n):
        lo = 0.0 if bounds is None else norm_scalar(np.broadcast_to(snp.raw(snp.to_obj(bounds[0])), (n,))[i])
        hi = float('inf') if bounds is None else norm_scalar(np.broadcast_to(snp.raw(snp.to_obj(bounds[1])), (n,))[i])
        xi, gi = o[i], g[i]
        eng.assume_fast(xi >= lo)
        eng.assume_fast(xi <= hi)
        inside = s_and(xi > lo, xi < hi)
        eng.assume_fast(s_or(E.s_not(inside), gi == 0))
        eng.assume_fast(s_or(E.s_not(xi == lo), gi >= 0, s_and(xi == hi)))
        eng.assume_fast(s_or(E.s_not(xi == hi), gi <= 0, s_and(xi == lo)))
    rn = SymReal(eng.fresh_real('rnorm'))
    eng.assume_fast(rn >= 0)
    return x, rn


class legendre:
    """scipy.special.legendre by the Bonnet recursion (exact rational coefficients)"""

    def __init__(self, n, monic=False):
        from fractions import Fraction as F
        p0, p1 = [F(1)], [F(0), F(1)]
        if n == 0:
            c = p0
        else:
            for k in range(1, n):
                a = [F(0)] + [F(2 * k + 1, k + 1) * t for t in p1]
                b = [F(k, k + 1) * t for t in p0] + [F(0)] * (len(a) - len(p0))
                p0, p1 = p1, [u - v for u, v in zip(a, b)]
            c = p1
        self.c = c

    def __call__(self, x):
        def f(t):
            t = SymReal.lift(t)
            r = SymReal(self.c[-1])
            for co in reversed(self.c[:-1]):
                r = r * t + SymReal(co)
            return r
        if isinstance(x, np.ndarray):
            return snp.ew('positive', f, (x,))
        return f(x)


# ------------------------------------------------------------------ astropy.table

class _Cols(dict):
    def move_to_end(self, k, last=True):
        v = self.pop(k)
        items = list(self.items())
        self.clear()
        if last:
            self.update(items)
            self[k] = v
        else:
            self[k] = v
            self.update(items)


class Column:
    def __new__(cls, data=None, name=None, dtype=None, **kw):
        a = snp.to_sarr(data, dtype)
        if dtype is not None:
            a = a.astype(dtype)
        a = a.view(type(a))
        a.name = name
        return a


class TableRow:
    def __init__(self, t, i):
        self._t, self._i = t, i

    def __getitem__(self, k):
        return self._t[k][self._i]

    @property
    def colnames(self):
        return self._t.colnames

    dtype = None


class Table:
    """the parts of astropy.table.Table the code uses; columns are arrays that may hold symbols"""
    Column = Column

    def __init__(self, data=None, names=None, copy=True, dtype=None, **kw):
        self.columns = _Cols()
        self.meta = dict()
        if data is None:
            pass
        elif isinstance(data, Table):
            for k in data.colnames:
                self.columns[k] = data[k].copy()
            self.meta = dict(data.meta)
        elif isinstance(data, dict):
            for k, v in data.items():
                self.columns[k] = _col(v)
        elif hasattr(data, 'rec_concat') and not isinstance(data, Table):
            for k, v in data.cols.items():
                self.columns[k] = _col(v)
        elif isinstance(data, np.ndarray) and data.dtype.names:
            for k in data.dtype.names:
                self.columns[k] = _col(data[k])
        else:
            for k, v in zip(names, data):
                self.columns[k] = _col(v)
        if isinstance(data, dict) and names is not None:
            self.columns = _Cols((n, self.columns[n]) for n in names)
        self._check()

    def _check(self):
        if len({len(v) for v in self.columns.values()}) > 1:
            raise ValueError('Inconsistent data column lengths: ' + str({len(v) for v in self.columns.values()}))

    @property
    def colnames(self):
        return list(self.columns)

    def keys(self):
        return self.colnames

    def rec_concat(self, tabs):
        from .fakefs import Rec
        recs = [Rec(dict(t.columns)) if isinstance(t, Table) else t for t in tabs]
        return recs[0].rec_concat(recs)

    @property
    def dtype(self):
        return types.SimpleNamespace(names=tuple(self.columns))

    def __len__(self):
        for v in self.columns.values():
            return len(v)
        return 0

    def __contains__(self, k):
        return k in self.columns

    def __iter__(self):
        return iter(TableRow(self, i) for i in range(len(self)))

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.columns[k]
        if isinstance(k, (int, np.integer, E.SymInt)):
            return TableRow(self, int(k))
        if isinstance(k, tuple) and not len(k):
            return self._new([])
        if isinstance(k, (list, tuple)) and all(isinstance(x, str) for x in k):
            return self._new([(x, self.columns[x].copy()) for x in k])
        return self._new([(c, v[k]) for c, v in self.columns.items()])

    def _new(self, items):
        t = type(self)()
        t.columns = _Cols(items)
        t.meta = dict(self.meta)
        return t

    def __setitem__(self, k, v):
        if isinstance(k, str):
            if k in self.columns:
                c = self.columns[k]
                if not isinstance(v, np.ndarray) and not isinstance(v, (list, tuple)):
                    c[...] = v
                    return
                self.columns[k] = _col(v)
            else:
                if not isinstance(v, (np.ndarray, list, tuple)):
                    v = [v] * len(self)
                self.columns[k] = _col(v)
            self._check()
        else:
            raise Unsupported('Table row assignment')

    def __delitem__(self, k):
        del self.columns[k]

    def add_column(self, col, index=None, name=None, **kw):
        n = name or getattr(col, 'name', None)
        if n in self.columns:
            raise ValueError('duplicate column ' + str(n))
        self.columns[n] = _col(col)
        self._check()

    def replace_column(self, name, col):
        if name not in self.columns:
            raise ValueError(name)
        self.columns[name] = _col(col)
        self._check()

    def remove_column(self, name):
        del self.columns[name]

    def remove_columns(self, names):
        for n in ([names] if isinstance(names, str) else names):
            del self.columns[n]

    def keep_columns(self, names):
        names = [names] if isinstance(names, str) else names
        for n in list(self.columns):
            if n not in names:
                del self.columns[n]

    def rename_column(self, a, b):
        self.columns = _Cols((b if k == a else k, v) for k, v in self.columns.items())

    def rename_columns(self, aa, bb):
        for a, b in zip(aa, bb):
            self.rename_column(a, b)

    def copy(self, copy_data=True):
        return Table(self)

    def argsort(self, keys=None, **kw):
        keys = [keys] if isinstance(keys, str) else list(keys)
        return snp.lexsort([self.columns[k] for k in keys[::-1]])

    def sort(self, keys=None, **kw):
        ix = self.argsort(keys)
        for k in list(self.columns):
            self.columns[k] = self.columns[k][ix]

    def as_array(self):
        from .fakefs import Rec
        return Rec({k: v.copy() for k, v in self.columns.items()})

    def group_by(self, keys):
        keys = [keys] if isinstance(keys, str) else list(keys)
        val = [tuple(norm_scalar(self.columns[k][i]) for k in keys) for i in range(len(self))]
        if any(is_sym(x) for v in val for x in v):
            raise Unsupported('group_by on symbolic keys')
        order = sorted(range(len(val)), key=lambda i: val[i])
        out = self._new([(c, v[np.array(order, dtype=int)]) for c, v in self.columns.items()])
        groups, keyrows = [], []
        for i in order:
            if not keyrows or keyrows[-1] != val[i]:
                keyrows.append(val[i])
                groups.append([])
            groups[-1].append(i)
        out.groups = _Groups([self._new([(c, v[np.array(g, dtype=int)]) for c, v in self.columns.items()]) for g in groups],
                             [dict(zip(keys, v)) for v in keyrows])
        return out


class _Groups(list):
    def __init__(self, tabs, keys):
        super().__init__(tabs)
        self.keys = keys


def _col(v):
    if isinstance(v, snp.SArr):
        return v.copy()
    if isinstance(v, np.ndarray):
        return snp.from_concrete(v)
    return snp.to_sarr(v)


def vstack(tables, join_type='outer', metadata_conflicts='silent', **kw):
    tables = list(tables)
    if len(tables) == 1:
        return tables[0]
    names = []
    for t in tables:
        for c in t.colnames:
            if c not in names:
                names.append(c)
    out = Table()
    for c in names:
        parts = []
        for t in tables:
            if c not in t.colnames:
                raise Unsupported('vstack with missing columns')
            parts.append(t[c])
        if len({p.shape[1:] for p in parts}) > 1:
            raise ValueError("inconsistent shapes for column '%s'" % c)
        out.columns[c] = snp.FUNCS['concatenate'](parts)
    for t in tables:
        out.meta.update(t.meta)
    return out


def table_module():
    m = types.ModuleType('astropy.table')
    m.Table, m.Column, m.vstack, m.QTable = Table, Column, vstack, Table
    return m
