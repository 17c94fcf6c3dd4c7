"""C05: refined redshift candidates are few, ordered, distinct, in range and honestly flagged."""
import types

import numpy as np

from .. import lib

PROPERTY = 'C05'
ASSUMPTIONS = ['template rebinning, the batched chi2 and (in the multi-minimum harnesses) the parabola fit are replaced by '
               'stubs returning arbitrary values; rebinning may refuse redshifts outside the template range',
               'chi2 of the fine scan > 0']
C = 299792.458


class Env:
    """arbitrary fine-scan results, keyed by the redshifts they were asked for"""

    def __init__(self, ctx, nbasis, zlim=None, parab=None, simple=False):
        self.ctx, self.nb, self.zlim, self.parab, self.simple = ctx, nbasis, zlim, parab, simple
        self.n = 0
        self.calls = []
        self.lastz = None
        r = ctx.rr
        r.fitz
        r.patch('rebin', 'rebin_template', self.rebin)
        r.patch('zscan', 'calc_zchi2_batch', self.chi2)
        if parab is not None:
            r.patch('fitz', 'minfit', self.minfit)
        self.fits = []

    def rebin(self, template, z, dwave=None, dedges=None, use_gpu=False, xmin=None, xmax=None, **k):
        z = [z[i] for i in range(len(z))] if hasattr(z, '__len__') else [z]
        if self.zlim is not None:
            for t in z:
                if self.ctx.truth(self.ctx.Or(t < self.zlim[0], t > self.zlim[1])):
                    raise ValueError('edges must be within input x range')
        # limits given for the range check must hold for every redshift
        for lim, exp in ((xmin, template.minwave * (1 + self.ctx.max(*z))), (xmax, template.maxwave * (1 + self.ctx.min(*z)))):
            if lim is not None:
                self.ctx.eq(lim, exp, 'wavelength range common to all redshifts')
        self.lastz = z
        return {k: self.ctx.zeros((len(z), len(w), self.nb)) for k, w in dwave.items()}

    def chi2(self, spectra, tdata, weights, flux, wflux, nz, nbasis, *a, **k):
        i = self.n
        self.n += 1
        c = self.ctx.reals(f'chi{i}', nz, 0, 100)
        if not self.simple:
            for x in c:
                self.ctx.require(x > 0)
        co = self.ctx.reals(f'co{i}', (nz, nbasis))
        self.calls.append(dict(z=list(self.lastz), chi2=list(c), coeff=co))
        return c.copy(), co.copy()

    def minfit(self, x, y):
        r = self.parab(len(self.fits), x, y)
        self.fits.append(dict(x=list(x), y=list(y), r=r))
        return r


def target(ctx, npix=3, masked=1):
    n = npix
    iv = ctx.arr([0.0 if i < masked else 2.0 ** (-15 * (n - 1 - i)) for i in range(n)])   # faint pixels count too
    s = ctx.rr.targets.Spectrum(ctx.arr([6000.0 + i for i in range(n)]), ctx.arr([1.0 - i for i in range(n)]), iv,
                                lib.dia(ctx, [[1.0] * n], [0], n), None, band='r')
    return ctx.rr.targets.Target(7, [s])


def tmpl(ctx, z, ttype='GALAXY', nb=1, **k):
    if ttype == 'STAR':
        k.setdefault('sub_type', 'G')
    return lib.template(ctx, z, nb, template_type=ttype, minwave=ctx.const(1), maxwave=ctx.const(100000), **k)


def col(res, k):
    a = res[k]
    return [a[i, 0] for i in range(a.shape[0])]


def common(ctx, res, z, nminima, limit, npix):
    n = res['z'].shape[0]
    ctx.check(n <= nminima, 'no more candidates than requested')
    zz, c2 = col(res, 'z'), col(res, 'chi2')
    for k in ('zerr', 'zwarn', 'coeff', 'zz', 'zzchi2', 'npixels', 'fitmethod'):
        ctx.check(res[k].shape[0] == n, 'one row per candidate in every column')
    for i in range(n - 1):
        ctx.le(c2[i], c2[i + 1], 'candidates sorted by chi2')
    for i in range(n):
        ctx.check(ctx.And(zz[i] >= z[0], zz[i] <= z[len(z) - 1]), 'candidate inside the scanned redshift range')
        ctx.check(ctx.And(res['zz'][i, 0] <= zz[i], zz[i] <= res['zz'][i, res['zz'].shape[1] - 1]),
                  'candidate inside its own fine scan')
        ctx.eq(res['npixels'][i, 0], npix, 'pixel count is the number of unmasked pixels')
        for j in range(i):
            lo = ctx.min(zz[i], zz[j])
            d = zz[i] - zz[j]
            d = ctx.ite(d < 0, -d, d)
            ctx.check(d * C >= limit * (1 + lo) * (1 - 1e-9), 'two candidates are separated in velocity')
    return n


def coarse_minima(ctx, x):
    out = []
    n = len(x)
    for i in range(n):
        if ctx.truth(ctx.And(True if i == 0 else x[i] <= x[i - 1], True if i == n - 1 else x[i] <= x[i + 1])):
            out.append(i)
    return out


def h_cover(ctx, n, nminima, ttype, step):
    """symbolic coarse curve; refinement lands on the coarse minimum"""
    z = ctx.arr([0.5 + step * i for i in range(n)])
    x = ctx.reals('x', n, 0, 100)

    def parab(k, xx, yy):
        return (xx[1], ctx.const(1), yy[1], 0)
    env = Env(ctx, 1, parab=parab, simple=True)
    t = tmpl(ctx, z, ttype)
    limit = 100.0 if ttype == 'STAR' else 1000.0
    res = ctx.rr.fitz.fitz(x, z, target(ctx), t, nminima=nminima, zminfit_npoints=3)
    nres = common(ctx, res, z, nminima, limit, 2)
    ctx.check(nres >= 1, 'a finite curve always yields a candidate')
    mins = coarse_minima(ctx, x)
    # rank-ordered greedy selection that any correct choice satisfies
    rz = col(res, 'z')
    for m in mins:
        covered = ctx.Or(*[ctx.And(ctx.ite(r < z[m], z[m] - r, r - z[m]) * C < limit * (1 + ctx.max(z[m], r)) +
                                   2 * step * C) for r in rz])
        if nres < nminima:
            ctx.check(covered, 'no local minimum is dropped without a nearby candidate')
    # the deepest minimum is always among the candidates
    best = mins[0]
    for m in mins[1:]:
        if ctx.truth(x[m] < x[best]):
            best = m
    tied = ctx.Or(*[x[m] == x[best] for m in mins if m != best])
    if not ctx.truth(tied):
        ctx.check(ctx.Or(*[ctx.And(res['zz'][i, 0] <= z[best], z[best] <= res['zz'][i, 2]) for i in range(nres)]),
                  'the deepest minimum is refined')
        ilo, ihi = max(0, best - 1), min(n - 1, best + 1)
        ctx.check(ctx.Or(*[ctx.And(res['zz'][i, 0] == z[ilo], res['zz'][i, 2] == z[ihi]) for i in range(nres)]),
                  'fine scan spans the neighbouring coarse points')
    ctx.cover('many' if nres > 1 else 'one')
    if nres == nminima:
        ctx.cover('full')


def h_single(ctx, n, k, npts, oii, ttype='GALAXY', masked=1, z0=0.5):
    """one coarse minimum at index k; arbitrary fine scan; arbitrary parabola"""
    z = ctx.arr([z0 + 0.25 * i for i in range(n)])
    x = ctx.arr([float(10 + abs(i - k)) for i in range(n)])
    zlim = [z[0] - 0.125, z[n - 1] + 0.125]
    zmin = ctx.real('zmin', z[0] - 1, z[n - 1] + 1)
    pc2 = ctx.real('pc2', -10, 100)
    zw0 = [0, 1 << 10][ctx.choice('zw0', 2)]

    BAD, LIM = ctx.rr.zwarning.ZWarningMask.BAD_MINFIT, ctx.rr.zwarning.ZWarningMask.Z_FITLIMIT

    def parab(i, xx, yy):
        return (zmin, ctx.const(1), pc2, BAD if zw0 else 0)
    env = Env(ctx, 1, zlim=zlim, parab=parab)
    kw = dict(OIItemplate=ctx.arr([[1.0, 1.0]])) if oii else {}
    t = tmpl(ctx, z, ttype, **kw)
    res = ctx.rr.fitz.fitz(x, z, target(ctx, masked=masked), t, nminima=3, zminfit_npoints=npts)
    nres = common(ctx, res, z, 3, 1000.0, 3 - masked)
    ctx.check(nres == 1, 'exactly one candidate for one minimum')
    call = env.calls[0]
    ilo, ihi = max(0, k - 1), min(n - 1, k + 1)
    fz = [z[ilo] + (z[ihi] - z[ilo]) * i / (npts - 1) for i in range(npts)]
    ctx.eq(list(res['zz'][0]), fz, 'fine scan is uniform between the neighbouring coarse points')
    ctx.eq(call['z'], fz, 'templates evaluated on the fine scan')
    exp = []
    for i in range(npts):
        v = call['chi2'][i]
        if oii:
            tot = 2 * call['coeff'][i, 0]
            v = v + ctx.ite(tot < 0, -tot, 0)
        exp.append(v)
    ctx.eq(list(res['zzchi2'][0]), exp, 'fine scan chi2 reported, with the [OII] penalty where defined')
    # the parabola went through three consecutive points around the fine minimum
    f = env.fits[0]
    mn = ctx.min(*exp)
    conds = []
    for i in range(1, npts - 1):
        conds.append(ctx.And(f['x'][0] == fz[i - 1], f['x'][1] == fz[i], f['x'][2] == fz[i + 1], f['y'][0] == exp[i - 1],
                             f['y'][1] == exp[i], f['y'][2] == exp[i + 1],
                             ctx.Or(exp[i] == mn, exp[0] == mn if i == 1 else False,
                                    exp[npts - 1] == mn if i == npts - 2 else False)) if ctx.symbolic else
                     (np.allclose(f['x'], fz[i - 1:i + 2]) and np.allclose(f['y'], exp[i - 1:i + 2]) and mn in
                      ([exp[i]] + ([exp[0]] if i == 1 else []) + ([exp[-1]] if i == npts - 2 else []))))
    ctx.check(ctx.Or(*conds), 'parabola through the three points around the fine minimum')
    zw, rz, rc = res['zwarn'][0, 0], res['z'][0, 0], res['chi2'][0, 0]
    inside = ctx.truth(ctx.And(zmin >= fz[0], zmin <= fz[npts - 1]))
    if inside:
        ctx.eq(rz, zmin, 'redshift is the parabola minimum')
        ctx.eq(rc, pc2, 'chi2 is the parabola minimum')
        ctx.check((zw & BAD != 0) == (zw0 != 0), 'bad parabola flagged')
        ctx.cover('inside')
        ctx.eq(env.calls[1]['z'], [zmin], 'coefficients evaluated at the reported redshift')
        ctx.eq(list(res['coeff'][0]), [env.calls[1]['coeff'][0, 0]], 'reported coefficients are those of that fit')
    else:
        ctx.check(zw & BAD != 0, 'parabola minimum outside the fine scan is flagged')
        ctx.eq(rc, mn, 'chi2 falls back to the fine-scan minimum')
        ctx.check(ctx.Or(*[ctx.And(rz == fz[i], exp[i] == mn) for i in range(npts)]) if ctx.symbolic else
                  any(abs(rz - fz[i]) < 1e-9 and exp[i] == mn for i in range(npts)),
                  'redshift falls back to the fine-scan minimum')
        got = res['coeff'][0, 0]
        at = [ctx.And(rz == fz[i], got == call['coeff'][i, 0]) for i in range(npts)]
        for c in env.calls[1:]:
            at += [ctx.And(rz == c['z'][i], got == c['coeff'][i, 0]) for i in range(len(c['z']))]
        ctx.check(ctx.Or(*at), 'reported coefficients are those of a fit at the reported redshift')
        ctx.cover('outside')
    atlim = ctx.truth(ctx.Or(rz < z[1], rz > z[n - 2]))
    if atlim:
        ctx.check(zw & LIM != 0, 'redshift at the edge of the range is flagged')
        ctx.cover('limit')
    elif ctx.truth(ctx.And(zmin >= z[1], zmin <= z[n - 2])):
        ctx.check(zw & LIM == 0, 'no edge flag away from the edges')
    ctx.check(zw & ~(BAD | LIM) == 0, 'no other flag')


def h_pair(ctx, ttype, step, n, pattern, nminima, outside=False):
    """several minima, arbitrary refined redshifts inside their fine scans"""
    z = ctx.arr([0.25 + step * i for i in range(n)])
    x = ctx.arr([float(v) for v in pattern])
    limit = 100.0 if ttype == 'STAR' else 1000.0

    def parab(i, xx, yy):
        v = ctx.real(f'zm{i}')
        if outside:     # the second parabola may fail, its fallback is the fine minimum
            ctx.require(ctx.And(v >= xx[0] - (i > 0), v <= xx[2] + (i > 0)))
        else:
            ctx.require(ctx.And(v >= xx[0], v <= xx[2]))
        return (v, ctx.const(1), ctx.real(f'pc{i}', 0, 100), 0)
    env = Env(ctx, 1, parab=parab, simple=True)
    env_chi2 = env.chi2

    def chi2(*a, **k):
        c, co = env_chi2(*a, **k)
        for i in range(1, len(c)):         # fine minimum first: the parabola is what varies here
            ctx.require(c[i] > c[0])
        return c, co
    ctx.rr.patch('zscan', 'calc_zchi2_batch', chi2)
    ctx.rr.patch('fitz', 'calc_zchi2_batch', chi2)
    t = tmpl(ctx, z, ttype)
    res = ctx.rr.fitz.fitz(x, z, target(ctx, 4, 0), t, nminima=nminima, zminfit_npoints=3)
    nres = common(ctx, res, z, nminima, limit, 4)
    ctx.check(nres >= 1, 'at least one candidate')
    ctx.cover(f'{nres}')
    # rows are kept together: each row is one refinement
    for i in range(nres):
        ctx.check(ctx.Or(*[ctx.And(*([True] if outside and k else [res['z'][i, 0] == f['r'][0], res['chi2'][i, 0] == f['r'][2]]),
                                   res['zz'][i, 0] == f['x'][0], res['zz'][i, 2] == f['x'][2],
                                   res['zzchi2'][i, 1] == f['y'][1]) for k, f in enumerate(env.fits)]),
                  'each row comes from a single refinement')


def h_cluster(ctx, ttype, step, m, far, nminima):
    """a noisy well: m minima close to each other, and shallower ones far away"""
    zz, v = [], []
    for i in range(2 * m + 1):
        zz.append(0.25 + step * i)
        v.append(50.0 if i % 2 == 0 else 10.0 + (5 * i) % 7 / 8)
    want = [min((v[2 * i + 1], zz[2 * i + 1]) for i in range(m))[1]]
    for q in range(far):
        zz += [zz[-1] + 0.02, zz[-1] + 0.03, zz[-1] + 0.04]
        v += [60.0, ctx.real(f'x{q}', 20, 40), 60.0]
        want.append(zz[-2])
    z, x = ctx.arr(zz), ctx.arr(v)

    def parab(k, xx, yy):
        return (xx[1], ctx.const(1), yy[1], 0)
    env = Env(ctx, 1, parab=parab, simple=True)
    real = env.chi2

    def chi2(*a, **k):
        c, co = real(*a, **k)
        for i in range(len(c)):
            if i != 1 and len(c) == 3:
                ctx.require(c[i] > c[1])
        return c, co
    ctx.rr.patch('zscan', 'calc_zchi2_batch', chi2)
    ctx.rr.patch('fitz', 'calc_zchi2_batch', chi2)
    res = ctx.rr.fitz.fitz(x, z, target(ctx), tmpl(ctx, z, ttype), nminima=nminima, zminfit_npoints=3)
    nres = common(ctx, res, z, nminima, 100.0 if ttype == 'STAR' else 1000.0, 2)
    ctx.check(nres == min(nminima, 1 + far), 'one candidate for the well and one for each distant minimum')
    rz = col(res, 'z')
    for w in want if nminima > far else want[:1]:
        ctx.check(ctx.Or(*[ctx.And(r - w < step, w - r < step) for r in rz]), 'no distant minimum is lost to the well')
    ctx.cover('done')


def h_none(ctx):
    """all-nan scan: no minima, empty result"""
    z = ctx.arr([0.5, 0.75, 1.0])
    x = ctx.oarr([np.nan, np.nan, np.nan], float)
    Env(ctx, 1, simple=True)
    res = ctx.rr.fitz.fitz(x, z, target(ctx), tmpl(ctx, z), nminima=3, zminfit_npoints=3)
    for k in ('z', 'zerr', 'zwarn', 'chi2', 'zz', 'zzchi2', 'coeff', 'fitmethod', 'npixels'):
        ctx.check(k in res and len(res[k]) == 0, 'empty result when there is no minimum')
    ctx.cover('done')


def h_dv(ctx):
    z, r = ctx.real('z', -0.1, 10), ctx.real('r', -0.1, 10)
    ctx.eq(ctx.rr.fitz.get_dv(z, r), C * (z - r) / (1 + r), 'velocity difference in km/s')
    ctx.cover('done')


def configs(tier):
    th = tier == 'thorough'
    c = []

    def add(name, fn, bounds, cover, w=1, **params):
        c.append(dict(name=name, fn=fn, params=params, bounds=bounds, cover=list(cover), validate=4, weight=w))
    add('cover4', h_cover, '4-point symbolic coarse curve, 3 minima allowed', ('one', 'many'), 3, n=4, nminima=3,
        ttype='GALAXY', step=0.003)
    add('cover4_near', h_cover, '4-point symbolic curve, neighbouring minima too close', ('one',), 3, n=4, nminima=2,
        ttype='GALAXY', step=0.0005)
    add('cover5_two', h_cover, '5-point symbolic curve, 2 minima allowed', ('one', 'many', 'full'), 5, n=5, nminima=2,
        ttype='STAR', step=0.0004)
    if th:
        add('cover5', h_cover, '5-point symbolic curve, 3 minima allowed', ('one', 'many', 'full'), 9, n=5, nminima=3,
            ttype='QSO', step=0.005)
    for k in range(5):
        add(f'single{k}', h_single, f'single minimum at coarse index {k} of 5, 4-point fine scan, arbitrary parabola',
            ('inside', 'outside') + (('limit',) if k in (0, 1, 3, 4) else ()), 4, n=5, k=k, npts=4, oii=False)
    add('single_oii', h_single, 'with [OII] penalty', ('inside', 'outside'), 4, n=5, k=2, npts=3, oii=True)
    add('single_oii_low', h_single, 'with [OII] penalty, redshifts around zero', ('inside', 'outside'), 4, n=5, k=2, npts=3, oii=True, z0=-0.5)
    add('single_nodata', h_single, 'all pixels masked', ('inside', 'outside'), 4, n=5, k=2, npts=3, oii=False, masked=3)
    add('pair_galaxy', h_pair, 'three minima, arbitrary refined redshifts', ('2',), 8, ttype='GALAXY', step=0.003, n=5,
        pattern=[1, 5, 2, 5, 3], nminima=2)
    add('pair3_galaxy', h_pair, 'three minima, 3 allowed', ('2', '3'), 8, ttype='GALAXY', step=0.003, n=5,
        pattern=[2, 5, 1, 5, 3], nminima=3)
    add('pair_star', h_pair, 'stars: smaller velocity separation', ('2', '3'), 8, ttype='STAR', step=0.0003, n=5,
        pattern=[3, 5, 1, 5, 2], nminima=3)
    for ty, st in (('GALAXY', 0.0002), ('STAR', 0.00002)):
        add(f'cluster_{ty.lower()}', h_cluster, '9 minima within the velocity limit and 2 distant ones, 3 allowed', ('done',), 2, ttype=ty, step=st, m=9, far=2, nminima=3)
    add('pair_outside', h_pair, 'two minima, the second parabola anywhere', ('1', '2'), 8, ttype='GALAXY', step=0.003, n=5,
        pattern=[9, 1, 5, 2, 9], nminima=2, outside=True)
    add('cluster_few', h_cluster, '9 minima within the velocity limit and 2 distant ones, 2 allowed', ('done',), 2, ttype='QSO', step=0.0002, m=9, far=2, nminima=2)
    if th:
        add('cluster_many', h_cluster, '30 minima within the velocity limit and 3 distant ones, 4 allowed', ('done',), 4, ttype='GALAXY', step=0.00005, m=30, far=3, nminima=4)
    add('none', h_none, 'all-nan scan', ('done',))
    add('dv', h_dv, 'arbitrary redshifts', ('done',))
    return c
