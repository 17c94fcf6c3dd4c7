"""C06: redshift priors are applied per target and the tophat confines the candidates."""
import types

import numpy as np

from .. import lib, par

PROPERTY = 'C06'
ASSUMPTIONS = ['the prior file reader returns the columns of the file (FITS parsing itself is outside)',
               'the logarithm is an uninterpreted function with log(1)=0 and log(1/x) = -log(x)']


class Hdu:
    def __init__(self, cols):
        self.data = cols


def fake_fits(ctx, ids, z, s, func):
    class H(dict):
        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    h = H(PRIORS=Hdu(dict(TARGETID=np.array(ids), Z=z, SIGMA=s, FUNCTION=np.array([func] * len(ids)))))
    return types.SimpleNamespace(open=lambda *a, **k: h, getdata=lambda *a, **k: h['PRIORS'].data)


def mkpriors(ctx, ids, z, s, func):
    ctx.rr.patch('priors', 'fits', fake_fits(ctx, ids, z, s, func))
    return ctx.rr.priors.Priors('/nonexistent/priors.fits')


def h_eval(ctx, func, n):
    ids = [39627788000000000 + 6, -2, 39627788000000000 + 4]
    z0, s0 = ctx.reals('z0', 3, 0, 5), ctx.reals('s0', 3, 0.125, 2)
    p = mkpriors(ctx, ids, z0, s0, func)
    grids = [ctx.reals('z', n, 0, 6), ctx.reals('y', n, 0, 6)]
    # other grids of the same length, then the first one again
    for t, z in [(0, grids[0]), (1, grids[0]), (0, grids[1]), (2, grids[1]), (0, grids[0])]:
        out = p.eval(ids[t], z)
        ctx.check(len(out) == n, 'one value per redshift')
        for i in range(n):
            u = (z[i] - z0[t]) / s0[t]
            if func == 'gaussian':
                ctx.eq(out[i], u * u, 'gaussian prior of the own target')
            else:
                exp = 2 * (ctx.np.log(ctx.arr([1 + u * u]))[0] if ctx.symbolic else np.log(1 + u * u))
                ctx.eq(out[i], exp, 'lorentzian prior of the own target')
            ctx.le(0, out[i], 'prior never rewards') if func == 'gaussian' else None
    o = p.eval(1234, z)
    ctx.eq(o if not np.isscalar(o) else [o], [0] * (1 if np.isscalar(o) else n), 'unlisted target: no prior')
    ctx.cover('done')


def h_tophat(ctx, n, via):
    z = ctx.arr([0.25 * i for i in range(n)])
    zc, w = ctx.real('z0', -0.5, 0.25 * n), ctx.real('s0', 0.03125, 0.5 * n)
    inside = [ctx.truth(ctx.And(z[i] - zc < w / 2, zc - z[i] < w / 2)) for i in range(n)]
    if via:
        zz, ss = ctx.zeros(2), ctx.zeros(2)
        zz[0], ss[0], zz[1], ss[1] = 9.0, 0.25, zc, w
        P = mkpriors(ctx, [3, 4], zz, ss, 'tophat')
        # another template of as many redshifts before
        P.eval(4, ctx.arr([20.0 + i for i in range(n)]))
        pr = P.eval(4, z)
    else:
        pr = ctx.rr.priors.Priors.tophat(z, zc, w)
    ctx.check(len(pr) == n, 'one value per redshift')
    pv = [pr[i] for i in range(n)]
    for i in range(n):
        v = float(pv[i])
        if inside[i] and 0 < i < n - 1:
            ctx.check(v == 0, 'no contribution inside the window')
        if inside[i] and i in (0, n - 1):
            ctx.check(v == 0 or v == np.inf, 'inside, at the edge of the scan')
        if not inside[i]:
            ctx.check(v != v or v == np.inf, 'outside the window excluded')
    x = ctx.reals('x', n, 0, 100)
    y = ctx.oarr([x[i] if float(pv[i]) == 0 else float(pv[i]) for i in range(n)], float)
    m = [int(i) for i in ctx.rr.fitz.find_minima(y)]
    for i in m:
        ctx.check(inside[i], 'no candidate outside the tophat')
    interior = [i for i in range(1, n - 1) if inside[i]]
    if interior:
        b = interior[0]
        for i in interior[1:]:
            if ctx.truth(x[i] < x[b]):
                b = i
        ctx.check(len(m) > 0, 'a window with interior grid points yields a candidate')
        if m:
            ctx.check(x[m[0]] <= x[b], 'the best redshift inside the window is the first candidate')
        ctx.cover('window')
    else:
        ctx.cover('empty')


class DistT:
    def __init__(self, tgs):
        self._t, self.comm, self.all_target_ids = tgs, None, [t.id for t in tgs]

    def local(self):
        return self._t

    def local_target_ids(self):
        return [t.id for t in self._t]


def h_zfind(ctx, nmp, func='gaussian'):
    """zfind adds the prior of the target to each of its scans, on the grid of that scan"""
    par.fake_mp(ctx)
    ids = [39627788000000000 + 6, 39627788000000000 + 7, -2]
    z0, s0 = ctx.reals('z0', 2, 0, 5), ctx.reals('s0', 2, 0.125, 2)
    ctx.rr.patch('priors', 'fits', fake_fits(ctx, [ids[0], ids[2]], z0, s0, func))
    grids = {'GALAXY': [0.1, 0.2, 0.3], 'QSO': [1.0, 1.5, 2.0], 'STAR:::A': [0.0, 0.001]}
    tm = [lib.template(ctx, ctx.arr(g), 1, *k.split(':::')) for k, g in grids.items()]
    chi = {(t, k): ctx.reals(f'c{t}{k[0]}', len(g), 0, 100) for t in ids for k, g in grids.items()}
    seen = {}

    def scan(targets, templates, mp_procs=1, use_gpu=False, **k):
        return {t.id: {f: dict(redshifts=ctx.arr(g), zchi2=chi[t.id, f].copy(), penalty=ctx.arr([float(q) for q in range(len(g))]), zcoeff=None)
                       for f, g in grids.items()} for t in targets.local()}

    def fit(zchi2, redshifts, target, template, nminima=3, **k):
        seen[target.id, template.full_type] = ([zchi2[i] for i in range(len(zchi2))], list(redshifts))
        one = ctx.arr([[0.5]])
        return dict(z=one, zerr=one, zwarn=ctx.intarr([0]).reshape((1, 1)), chi2=one, zz=one, zzchi2=one, coeff=one,
                    fitmethod=np.array([['PCA']]), npixels=ctx.intarr([100]).reshape((1, 1)))
    for m in ('zscan', 'zfind'):
        ctx.rr.patch(m, 'calc_zchi2_targets', scan)
    for m in ('fitz', 'zfind'):
        ctx.rr.patch(m, 'fitz', fit)
    tg = [types.SimpleNamespace(id=t, meta={}, sharedmem_pack=lambda: None, sharedmem_unpack=lambda: None, spectra=[0]) for t in ids]
    ctx.rr.zfind.zfind(DistT(tg), [lib.DTemplate(t, {}) for t in tm], nminima=1, priors='/nonexistent/priors.fits', mp_procs=nmp)
    ctx.check(sorted(seen) == sorted((t, k) for t in ids for k in grids), 'every scan refined once')
    for (t, k), (c, z) in seen.items():
        ctx.eq(z, grids[k], 'refined on its own grid')
        for i in range(len(grids[k])):
            u = 0
            if t != ids[1]:
                q = 0 if t == ids[0] else 1
                u = (grids[k][i] - z0[q]) / s0[q]
            ctx.eq(c[i], chi[t, k][i] + i + u * u, 'chi2 of the scan plus the prior of the target at that redshift', tol=1e-9)
    ctx.cover('done')


def h_unknown(ctx):
    name = ['Gaussian', 'flat', 'top hat', 'lorentzian'][ctx.choice('name', 4)]
    try:
        mkpriors(ctx, [1, 2], ctx.arr([0.5, 0.75]), ctx.arr([0.25, 0.5]), name)
    except Exception:
        refused = True
    else:
        refused = False
    ctx.check(refused, 'unknown prior function refused', name)
    ctx.cover('done')


def configs(tier):
    n = 5 if tier == 'thorough' else 4
    return [
        dict(name='gaussian', fn=h_eval, params=dict(func='gaussian', n=3), bounds='3 targets, 3 symbolic redshifts',
             cover=['done'], nonlinear=True),
        dict(name='lorentzien', fn=h_eval, params=dict(func='lorentzien', n=2), bounds='3 targets, 2 symbolic redshifts',
             cover=['done'], nonlinear=True),
        dict(name='zfind', fn=h_zfind, params=dict(nmp=1), bounds='3 targets, 3 templates of 2 to 3 redshifts, any scans and priors', cover=['done'],
             nonlinear=True),
        dict(name='zfind_mp', fn=h_zfind, params=dict(nmp=2), bounds='the same with 2 processes', cover=['done'], nonlinear=True),
        dict(name='unknown', fn=h_unknown, bounds='4 other names', cover=['done']),
        dict(name='tophat', fn=h_tophat, params=dict(n=n, via=False), bounds=f'{n} grid points, symbolic window and chi2',
             cover=['window', 'empty'], weight=5),
        dict(name='tophat_file', fn=h_tophat, params=dict(n=3, via=True), bounds='3 grid points, through the reader',
             cover=['window', 'empty'], weight=5),
    ]
