"""C03: constrained template fits respect their constraints; failures are sentinels."""
import numpy as np

from .. import lib
from ..lib import HUGE
from . import c02_chi2 as c02

PROPERTY = 'C03'
ASSUMPTIONS = ['scipy.optimize.nnls / lsq_linear: return a feasible point satisfying the KKT conditions of the least-'
               'squares problem they were given, or raise',
               'numpy.linalg.solve: exact solution or LinAlgError exactly when singular']


def mat(ctx, n, sym):
    M = ctx.reals('M', (n, n)) if sym else ctx.zeros((n, n))
    if not sym:
        for i in range(n):
            for j in range(n):
                M[i, j] = ctx.const([4, 1, 2, 1, 3, 1, 2, 1, 5][i * 3 + j])
    return M


def kkt(ctx, M, y, x, n, lo, hi):
    res = [lib.dot([M[i, j] for j in range(n)], x) - y[i] for i in range(n)]
    g = [lib.dot([M[i, j] for i in range(n)], res) for j in range(n)]
    for j in range(n):
        if lo[j] is not None:
            ctx.le(lo[j], x[j], 'lower bound respected')
        if hi[j] is not None:
            ctx.le(x[j], hi[j], 'upper bound respected')
        sc = 1e-6 * 100
        if ctx.symbolic:
            atlo = False if lo[j] is None else ctx.And(x[j] == lo[j])
            athi = False if hi[j] is None else ctx.And(x[j] == hi[j])
            ctx.check(ctx.Or(atlo, athi, g[j] == 0), 'stationary away from the bounds')
            ctx.check(ctx.Or(atlo, g[j] <= 0), 'decreasing only into the lower bound')
            ctx.check(ctx.Or(athi, g[j] >= 0), 'increasing only into the upper bound')
        else:
            atlo = lo[j] is not None and abs(x[j] - lo[j]) < sc
            athi = hi[j] is not None and abs(x[j] - hi[j]) < sc
            big = max(1.0, max(abs(float(v)) for v in np.asarray(y)))
            ctx.check(atlo or athi or abs(g[j]) < sc * big, 'stationary away from the bounds')
            ctx.check(atlo or g[j] <= sc * big, 'decreasing only into the lower bound')
            ctx.check(athi or g[j] >= -sc * big, 'increasing only into the upper bound')


def h_solve(ctx, algo, n, sym, bnd=None):
    M, y = mat(ctx, n, sym), ctx.reals('y', n, -1000, 1000)
    args = None
    lo, hi = [None] * n, [None] * n
    if algo.upper() in ('NMF', 'NNLS'):
        lo = [0] * n
    if bnd == 'some':
        b = np.zeros((2, n))
        b[0][1:] = -np.inf
        b[1] = np.inf
        b[1][0] = 2.0
        lo = [0] + [None] * (n - 1)
        hi = [2] + [None] * (n - 1)
        args = dict(bounds=b)
    elif bnd:                       # what the archetype fits ask for: one-sided bounds only
        b = np.zeros((2, n))
        b[1] = np.inf
        if bnd == 'arch':
            b[0][n // 2 + 1:] = -np.inf
        lo = [None if v == -np.inf else 0 for v in b[0]]
        args = dict(bounds=b)
    if algo.upper() == 'PCA' and sym:
        d = M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0] if n == 2 else M[0, 0]
        sing = ctx.truth(d == 0)
    else:
        sing = False
    try:
        x = ctx.rr.zscan.solve_matrices(M, y, solve_algorithm=algo, solver_args=args, use_gpu=False)
        ok = True
    except np.linalg.LinAlgError:
        ok = False
    ctx.check(ok == (not sing), 'LinAlgError exactly for singular systems')
    if not ok:
        ctx.cover('singular')
        return
    ctx.check(x.shape == (n,), 'shape')
    x = list(x)
    if algo.upper() == 'PCA':
        for i in range(n):
            ctx.eq(lib.dot([M[i, j] for j in range(n)], x), y[i], 'solves the system')
    else:
        kkt(ctx, M, y, x, n, lo, hi)
    ctx.cover('solved')


def h_unknown(ctx):
    algo = ['SVD', '', 'PCAX', 'nm'][ctx.choice('algo', 4)]
    M, y = mat(ctx, 2, False), ctx.reals('y', 2)
    try:
        ctx.rr.zscan.solve_matrices(M, y, solve_algorithm=algo, use_gpu=False)
        ctx.fail('unknown algorithm must be refused')
    except NotImplementedError:
        ctx.check(True, 'unknown algorithm is refused')
    # and in the scan it is a failed fit, not a crash or a silent value
    sp, td, rows = c02.setup(ctx, ['r'], 2, 1, 'id', False, 'fixed', 0)
    t = lib.template(ctx, ctx.arr([0.1, 0.2]), 1, method=algo)
    c, z, p = ctx.rr.zscan.calc_zchi2([1], [ctx.rr.targets.Target(1, sp)], lib.DTemplate(t, td))
    ctx.eq(c[0], [HUGE] * 2, 'scan with an unknown algorithm is a failed fit')
    ctx.cover('done')


def h_scan_nmf(ctx, nz, nb, fail):
    """non-negative templates through the scan"""
    sp, td, rows = c02.setup(ctx, ['b', 'r'], nz, nb, 'band', False, 'fixed', 0)
    for s in sp:
        for f in s.flux:
            ctx.require(ctx.And(f >= -100, f <= 100))
    f, w = c02.flat(sp, 'flux'), c02.flat(sp, 'ivar')
    calls = [0]
    if fail:
        bad = ctx.choice('bad', nz + 1)
        kind = ctx.choice('kind', 2)
        import scipy.optimize
        from .. import fakes

        def hook(A, b, *a, **k):
            calls[0] += 1
            if calls[0] - 1 == bad:
                raise [RuntimeError('Maximum number of iterations reached.'), ValueError('x')][kind]
            if ctx.symbolic:
                return fakes.bounded_lsq(A, b, None)
            return scipy.optimize.nnls(A, b)
        ctx.hook_solver('nnls', hook)
    t = lib.template(ctx, ctx.arr([0.1 * (i + 1) for i in range(nz)]), nb, method='NMF')
    c, z, p = ctx.rr.zscan.calc_zchi2([1], [ctx.rr.targets.Target(1, sp)], lib.DTemplate(t, td))
    for i in range(nz):
        if fail and i == bad:
            ctx.eq(c[0, i], HUGE, 'failed non-negative fit gets the failed-fit chi2')
            ctx.eq([z[0, i, k] for k in range(nb)], [0] * nb, 'failed non-negative fit has zero coefficients')
            ctx.cover('failed')
            continue
        co = [z[0, i, k] for k in range(nb)]
        for k in range(nb):
            ctx.le(0, co[k], 'non-negative template coefficients')
        tot = 0
        for r, fi, wi in zip(rows[i], f, w):
            d = fi - lib.dot(r, co)
            tot = tot + wi * d * d
        ctx.eq(c[0, i], tot, 'chi2 is the residual at the reported coefficients', tol=1e-9)
        # optimality of the bounded normal-equation problem
        n = nb
        M = ctx.zeros((n, n))
        for a in range(n):
            for b in range(n):
                M[a, b] = lib.dot([wi * r[a] for wi, r in zip(w, rows[i])], [r[b] for r in rows[i]])
        y = [lib.dot([wi * r[a] for wi, r in zip(w, rows[i])], f) for a in range(n)]
        if ctx.symbolic:
            kkt(ctx, M, y, co, n, [0] * n, [None] * n)
        ctx.cover('fit')


def configs(tier):
    th = tier == 'thorough'
    c = []

    def add(name, fn, bounds, cover=('solved',), **params):
        c.append(dict(name=name, fn=fn, params=params, bounds=bounds, cover=list(cover), validate=4, nonlinear=True))
    add('pca2', h_solve, '2x2 system, everything symbolic', ('solved', 'singular'), algo='PCA', n=2, sym=True)
    add('pca3', h_solve, '3x3 fixed matrix, symbolic right side', algo='PCA', n=3, sym=False)
    add('pca_lower', h_solve, 'lower-case name', algo='pca', n=2, sym=False)
    add('nmf2', h_solve, '2x2 fixed matrix, symbolic right side', algo='NMF', n=2, sym=False)
    add('nnls3', h_solve, '3x3 fixed matrix, symbolic right side', algo='NNLS', n=3, sym=False)
    add('nmf_lower', h_solve, 'lower-case name', algo='nmf', n=2, sym=False)
    add('bvls_free', h_solve, 'no bounds', algo='BVLS', n=2, sym=False)
    add('bvls_bounds', h_solve, 'mixed bounds', algo='BVLS', n=3, sym=False, bnd='some')
    add('bvls_arch', h_solve, 'one-sided bounds, some coefficients free', algo='BVLS', n=3, sym=False, bnd='arch')
    add('bvls_pos', h_solve, 'all coefficients non-negative', algo='BVLS', n=2, sym=False, bnd='pos')
    add('bvls_lower', h_solve, 'lower-case name, mixed bounds', algo='bvls', n=2, sym=False, bnd='some')
    add('unknown', h_unknown, '4 unknown algorithm names', ('done',))
    add('scan_nmf', h_scan_nmf, '2 redshifts, 2 non-negative bases, symbolic flux', ('fit',), nz=2, nb=2, fail=False)
    add('scan_nmf_fail', h_scan_nmf, '3 redshifts, solver failing at any one of them (or none)', ('fit', 'failed'),
        nz=3, nb=1, fail=True)
    if th:
        add('scan_nmf3', h_scan_nmf, '1 redshift, 3 non-negative bases, symbolic flux', ('fit',), nz=1, nb=3, fail=False)
    return c
