"""C11: coaddition: inverse-variance weighted, bands kept apart, masked data without influence."""
import numpy as np

from .. import lib

PROPERTY = 'C11'
ASSUMPTIONS = ['scipy.sparse is modelled by exact banded and CSR containers']


def rmat(ctx, name, n, kind):
    """DIA data rows and offsets"""
    if kind == 'id':
        return [[1.0] * n], [0]
    if kind == 'sym':                    # arbitrary band values, kept safe from the integral threshold
        return [ctx.reals(name + 'd0', n, 1, 2), ctx.reals(name + 'd1', n, 0, 1)], [0, 1]
    if kind == 'wide':
        return [[0.25] * n, [0.5] * n, [0.25] * n], [1, 0, -1]
    if kind == 'low':                    # first row misses too much flux
        return [[0.9] + [1.0] * (n - 1)], [0]


def build(ctx, spec, n):
    """spec: list of (band, rkind); ivar per pixel from the given set"""
    out = []
    for k, (band, rk, ivs) in enumerate(spec):
        w = {'b': [3600.0 + i for i in range(n)], 'r': [5700.0 + 2 * i for i in range(n)],
             None: [4000.0 + i for i in range(n)]}[band]
        d, o = rmat(ctx, f'R{k}', n, rk)
        fl = ctx.reals(f'f{k}', n, -1000, 1000)
        iv = ivs if not callable(ivs) else ivs(k)
        data = np.array([list(r) for r in d], dtype=object) if rk == 'sym' else d
        if rk == 'sym':
            data = ctx.arr([list(r) for r in d])
        out.append(dict(band=band, wave=ctx.arr(w), flux=fl, ivar=iv, rdata=[list(r) for r in d], off=o,
                        R=lib.dia(ctx, data, o, n)))
    return out


def mask_low(ctx, iv, data, off, n):
    """documented rule: a pixel whose resolution row integrates to < 0.99 is masked"""
    m = lib.dense((data, off), n)
    return [ctx.ite(sum(m[i][1:], m[i][0]) < 0.99, 0, iv[i]) for i in range(n)]


def oracle(ctx, group, n, ivs=None):
    f = [s['flux'] for s in group]
    v = [list(s['ivar']) for s in group] if ivs is None else ivs
    W = [sum([x[j] for x in v], 0) for j in range(n)]
    F, R = [], []
    for j in range(n):
        bad = W[j] == 0
        num = sum([x[j] * g[j] for x, g in zip(v, f)], 0)
        mean = sum([g[j] for g in f], 0) / len(f)
        F.append(ctx.ite(bad, mean, num / ctx.ite(bad, 1, W[j])))
    for k in range(len(group[0]['rdata'])):
        row = []
        for j in range(n):
            num = sum([x[j] * s['rdata'][k][j] for x, s in zip(v, group)], 0)
            row.append(num / ctx.ite(W[j] == 0, 1, W[j]))
        R.append(row)
    return W, F, R


def compare(ctx, sp, group, n, ivs=None, cache=False):
    W, F, R = oracle(ctx, group, n, ivs)
    ctx.eq(sp.wave, group[0]['wave'], 'wavelength grid of the band')
    ctx.eq(sp.flux, F, 'inverse-variance weighted mean flux (plain mean where nothing has weight)')
    ctx.check(list(sp.R.offsets) == list(group[0]['off']), 'resolution offsets')
    ctx.eq(sp.R.data, R, 'resolution weighted like the flux')
    ctx.eq(sp.ivar, mask_low(ctx, W, R, group[0]['off'], n), 'inverse variances add up')
    ctx.check(sp.band == group[0]['band'], 'band name')
    ctx.check(sp.nwave == n, 'number of pixels')
    m = lib.dense((R, group[0]['off']), n)
    ctx.eq(sp.Rcsr.toarray(), m, 'CSR resolution equals the band-diagonal one')


def h_coadd(ctx, spec, n, how, cache=False):
    """spec: list of (band, rkind, ivar pattern)"""
    raw = build(ctx, [(b, r, ctx.reals(f'w{k}', n, 0) if iv == 'sym' else ctx.arr(iv))
                      for k, (b, r, iv) in enumerate(spec)], n)
    T = ctx.rr.targets
    for s in raw:
        s['ivar0'] = s['ivar'].copy()
    sps = [T.Spectrum(s['wave'], s['flux'].copy(), s['ivar'].copy(), s['R'], None, band=s['band']) for s in raw]
    # the constructor's own masking rule applies to each exposure first
    for s in raw:
        s['ivar'] = mask_low(ctx, list(s['ivar0']), s['rdata'], s['off'], n)
    before = [(list(s.flux), list(s.ivar)) for s in sps]
    if how == 'init':
        t = T.Target(7, list(sps), coadd=True)
    else:
        t = T.Target(7, list(sps))
        t.compute_coadd(cache_Rcsr=cache)
    order = []
    for s in raw:
        if s['band'] not in order:
            order.append(s['band'])
    ctx.check([s.band for s in t.spectra] == order, 'one coadd per band, in order of appearance')
    for sp, b in zip(t.spectra, order):
        compare(ctx, sp, [s for s in raw if s['band'] == b], n)
    ctx.check(list(t.bands) == order, 'band list in step with the spectra')
    for s, (f, v) in zip(sps, before):
        ctx.eq(s.flux, f, 'input exposures unchanged')
        ctx.eq(s.ivar, v, 'input exposures unchanged')
    ctx.cover('done')


def h_many(ctx, nexp, n):
    """many exposures of two bands; the first, one in the middle and the last arbitrary"""
    T = ctx.rr.targets
    raw = build(ctx, [('r' if k % 3 == 1 else 'b', 'id', ctx.arr([(k + j) % 3 for j in range(n)])) for k in range(nexp)], n)
    for k, s in enumerate(raw):
        if k not in (0, nexp // 2, nexp - 1):
            s['flux'] = ctx.arr([float((k * 7 + j) % 11) for j in range(n)])
    t = T.Target(7, [T.Spectrum(s['wave'], s['flux'].copy(), s['ivar'].copy(), s['R'], None, band=s['band']) for s in raw])
    t.compute_coadd()
    ctx.check([s.band for s in t.spectra] == ['b', 'r'], 'one coadd per band, in order of appearance')
    for sp, b in zip(t.spectra, 'br'):
        compare(ctx, sp, [s for s in raw if s['band'] == b], n)
    ctx.cover('done')


def h_cosmic(ctx, nexp, n, ivs, nsig, sym, rk='id'):
    """cosmic rejection: the exposure deviating most from the mean gradient, and only where the exposures disagree"""
    T = ctx.rr.targets
    raw = build(ctx, [('b', rk, ctx.arr(ivs[k])) for k in range(nexp)], n)
    for k, s in enumerate(raw):
        if sym is not None and k not in sym:
            s['flux'] = ctx.arr([10.0 + (i * i) % 5 for i in range(n)])
        elif sym is not None:
            fl = ctx.arr([10.0 + (i * i) % 5 for i in range(n)])
            for j in sym[k]:
                fl[j] = s['flux'][j]
            s['flux'] = fl
    sps = [T.Spectrum(s['wave'], s['flux'].copy(), s['ivar'].copy(), s['R'], None, band='b') for s in raw]
    iv0 = [mask_low(ctx, list(s['ivar']), s['rdata'], s['off'], n) for s in raw]
    t = T.Target(7, list(sps), coadd=True, cosmics_nsig=nsig)
    # gradients with bad pixels interpolated linearly over wavelength
    grads = []
    for k, s in enumerate(raw):
        v = [float(x) for x in iv0[k]]
        good = [j for j in range(n) if v[j] > 0]
        if not good:
            grads.append(None)
            continue

        def interp(vals, j):
            if j in good:
                return vals[j]
            lo, hi = [g for g in good if g < j], [g for g in good if g > j]
            if not lo:
                return vals[hi[0]]
            if not hi:
                return vals[lo[-1]]
            a, b = lo[-1], hi[0]
            return vals[a] + (vals[b] - vals[a]) * ctx.const((j - a) / (b - a))
        f = [interp(list(s['flux']), j) for j in range(n)]
        w = [interp([ctx.const(x) for x in v], j) for j in range(n)]
        g = [0] + [f[j] - f[j - 1] for j in range(1, n)]
        var = [1 / w[0]] + [1 / w[j] + 1 / w[j - 1] for j in range(1, n)]
        grads.append((g, var))
    live = [k for k in range(nexp) if grads[k] is not None]
    ivs2 = [list(v) for v in iv0]
    if len(live) > 1:
        for j in range(n):
            G = [grads[k][0][j] for k in live]
            I = [1 / grads[k][1][j] for k in live]
            mean = sum([a * b for a, b in zip(I, G)], 0) / sum(I, 0)
            dev = [a * (g - mean) * (g - mean) for a, g in zip(I, G)]
            chi2 = sum(dev, 0) / (len(live) - 1)
            th = nsig ** 2
            if not ctx.symbolic and (abs(chi2 - th) < 1e-6 * th or chi2 > th and any(
                    abs(a - b) < 1e-6 * (1 + abs(a)) for q, a in enumerate(dev) for b in dev[:q])):
                return
            if ctx.truth(chi2 > th):
                k = 0
                for q in range(1, len(dev)):
                    if ctx.truth(dev[q] > dev[k]):
                        k = q
                # two exposures with equal deviation are both acceptable: skip the tie
                if any(ctx.truth(dev[q] == dev[k]) for q in range(len(dev)) if q != k):
                    ctx.cover('tie')
                    return
                ivs2[live[k]][j] = 0
                ctx.cover('masked')
    compare(ctx, t.spectra[0], raw, n, ivs2)
    ctx.cover('done')


def h_agree(ctx, nexp, n, ivs, nsig):
    """exposures that agree are never masked, however steep the spectrum"""
    T = ctx.rr.targets
    f = ctx.reals('f', n, -1000, 1000)
    sps = [T.Spectrum(ctx.arr([3600.0 + i for i in range(n)]), f.copy(), ctx.arr(ivs[k]), lib.dia(ctx, [[1.0] * n], [0], n),
                      None, band='b') for k in range(nexp)]
    t = T.Target(7, sps, coadd=True, cosmics_nsig=nsig)
    ctx.eq(t.spectra[0].ivar, [sum(ivs[k][j] for k in range(nexp)) for j in range(n)], 'agreeing exposures keep their weight')
    ctx.eq(t.spectra[0].flux, f, 'agreeing exposures keep their flux')
    ctx.eq(t.spectra[0].R.data, [[1.0 if sum(ivs[k][j] for k in range(nexp)) else 0.0 for j in range(n)]],
           'agreeing exposures keep their resolution')
    ctx.cover('done')


def configs(tier):
    th = tier == 'thorough'
    c = []

    def add(name, fn, bounds, cover=('done',), w=1, **params):
        c.append(dict(name=name, fn=fn, params=params, bounds=bounds, cover=list(cover), validate=3, weight=w))
    S = 'sym'
    add('two', h_coadd, '2 exposures of one band, 4 pixels, all flux and ivar symbolic', w=3,
        spec=[('b', 'id', S), ('b', 'id', S)], n=4, how='init')
    add('three', h_coadd, '3 exposures, 4 pixels, symbolic', w=4, spec=[('b', 'id', S)] * 3, n=4, how='call')
    add('many', h_many, '60 exposures of 2 bands, 3 pixels, 3 exposures symbolic', w=3, nexp=60, n=3)
    add('bands', h_coadd, '2 bands interleaved r b r b', w=4, spec=[('r', 'id', S), ('b', 'id', [1, 0, 2, 1]),
        ('r', 'id', [3, 1, 0, 0]), ('b', 'id', S)], n=4, how='init')
    add('resolution', h_coadd, 'symbolic resolution bands, masked pixels', w=5,
        spec=[('b', 'sym', [1, 2, 0, 1]), ('b', 'sym', [2, 0, 0, 3])], n=4, how='call', cache=True)
    add('wide', h_coadd, '3-band resolution, masked pixels', w=3,
        spec=[('b', 'wide', [1, 2, 0, 1, 1]), ('b', 'wide', [2, 0, 0, 3, 1]), ('b', 'wide', [0, 0, 0, 0, 0])], n=5, how='init')
    add('lowres', h_coadd, 'a pixel whose resolution row integrates below the threshold', w=2,
        spec=[('b', 'low', S), ('b', 'id', S)], n=4, how='init')
    add('single', h_coadd, 'one exposure per band', spec=[('b', 'sym', [1, 0, 2, 1]), ('r', 'wide', [1, 1, 1, 1])], n=4, how='call')
    add('cosmic2', h_cosmic, '2 exposures of 3 pixels, symbolic flux, 3 sigma', ('done', 'masked'), w=5, nexp=2, n=4,
        ivs=[[1, 2, 1, 4], [3, 5, 7, 2]], nsig=3, sym={0: [1, 2], 1: []})
    add('cosmic_wide', h_cosmic, '2 exposures, 3-band resolution', ('done', 'masked'), w=5, nexp=2, n=5,
        ivs=[[1, 2, 1, 4, 1], [3, 5, 7, 2, 2]], nsig=3, sym={0: [2], 1: []}, rk='wide')
    add('cosmic3', h_cosmic, '3 exposures, symbolic flux in two pixels', ('done', 'masked'), w=7, nexp=3, n=4,
        ivs=[[1, 2, 1, 4], [3, 5, 7, 2], [1, 1, 2, 1]], nsig=2, sym={0: [2], 1: [2], 2: []})
    add('cosmic_bad', h_cosmic, '2 exposures with masked pixels, one symbolic', ('done', 'masked'), w=5, nexp=2, n=5,
        ivs=[[0, 2, 0, 1, 1], [2, 5, 7, 3, 0]], nsig=3, sym={0: [1, 3], 1: []})
    add('cosmic_dead', h_cosmic, '3 exposures, one entirely masked', ('done', 'masked'), w=4, nexp=3, n=4,
        ivs=[[0, 0, 0, 0], [2, 1, 1, 3], [5, 7, 2, 1]], nsig=3, sym={0: [1, 2], 1: [2], 2: []})
    add('cosmic_dead_pixel', h_cosmic, '3 exposures, one entirely masked, a pixel masked in all', ('done', 'masked'), w=4, nexp=3, n=4,
        ivs=[[0, 0, 0, 0], [2, 0, 1, 3], [5, 0, 2, 1]], nsig=3, sym={0: [1, 2], 1: [2], 2: []})
    add('cosmic_alldead', h_cosmic, '2 exposures, both entirely masked', nexp=2, n=4, ivs=[[0] * 4, [0] * 4], nsig=3,
        sym={0: [1, 2], 1: []})
    add('cosmic_one', h_cosmic, 'a single exposure is never masked', nexp=1, n=4, ivs=[[1, 2, 0, 1]], nsig=1, sym=None)
    add('agree2', h_agree, '2 equal exposures of any flux', w=2, nexp=2, n=4, ivs=[[1, 2, 1, 1], [4, 1, 2, 1]], nsig=1)
    add('agree3', h_agree, '3 equal exposures of any flux', w=2, nexp=3, n=4, ivs=[[100, 50, 20, 10], [4, 1, 2, 1], [1, 1, 1, 1]],
        nsig=2)
    if th:
        add('cosmic2_full', h_cosmic, '2 exposures of 4 pixels, one fully symbolic', ('done', 'masked'), w=20, nexp=2, n=4,
            ivs=[[1, 2, 1, 4], [3, 5, 7, 2]], nsig=3, sym={0: [0, 1, 2, 3], 1: []})
        add('four', h_coadd, '4 exposures, 5 pixels', w=20, spec=[('b', 'id', S)] * 4, n=5, how='call')
    return c
