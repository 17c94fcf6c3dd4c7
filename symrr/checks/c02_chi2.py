"""C02: the chi2 of the scan is the weighted least-squares chi2 of the reported coefficients."""
import types
from fractions import Fraction

from .. import lib
from ..lib import HUGE

PROPERTY = 'C02'
ASSUMPTIONS = ['inverse variances are >= 0',
               'numpy.linalg.solve: returns the exact solution, raises LinAlgError exactly when the matrix is singular']

WAVES = {'b': [3600.0, 3601.0, 3602.0], 'r': [6000.0, 6001.0], 'z': [8000.0, 8001.0]}


def setup(ctx, bands, nz, nbasis, rmode, tsym, wmode, nmask):
    """spectra (real Spectrum objects), template data, and the dense model matrix rows per redshift"""
    spectra, tdata, rows = [], {}, [[] for _ in range(nz)]
    for ib, b in enumerate(bands):
        name = b if bands.index(b) == ib else f'{b}{ib}'
        rm = rmode[ib] if isinstance(rmode, (list, tuple)) else rmode
        wave = WAVES[b]
        n = len(wave)
        if wmode == 'sym':
            iv = None
        elif wmode == 'pos':
            iv = ctx.reals('w' + name, n, 0)
            for x in iv:
                ctx.require(x > 0)
        else:
            iv = ctx.arr([float(1 + (2 * i + ib) % 3) for i in range(n)])
        if nmask and ib == 0:
            iv = iv if iv is not None else ctx.reals('w' + name, n, 0)
            for i in range(nmask):
                iv[i] = 0.0
        s = lib.spectrum(ctx, name, wave, rm, band=b, ivar=iv)
        spectra.append(s)
        if s.wavehash in tdata:
            t = tdata[s.wavehash]               # exposures of one camera share the rebinned template
        elif tsym:
            t = ctx.reals('t' + b, (nz, n, nbasis))
        else:
            t = ctx.zeros((nz, n, nbasis))
            for z in range(nz):
                for i in range(n):
                    for k in range(nbasis):
                        t[z, i, k] = ctx.const(((3 * i + 5 * k + 7 * ib + 2 * z + i * i * k) % 11) - 4)
        tdata[s.wavehash] = t
        R = lib.dense(lib.rdata(n, 0, rm), n)
        for z in range(nz):
            for i in range(n):
                rows[z].append([lib.dot(R[i], [t[z, j, k] for j in range(n)]) for k in range(nbasis)])
    return spectra, tdata, rows


def flat(spectra, what):
    return [x for s in spectra for x in getattr(s, what)]


def expect(ctx, rows, f, w, chi2, coeff, nb, prior=None, label='scan'):
    """chi2 is the residual sum at coeff, coeff solves the (prior-regularised) normal equations"""
    model = [lib.dot(r, coeff) for r in rows]
    res = [fi - m for fi, m in zip(f, model)]
    for k in range(nb):
        g = lib.dot([r[k] for r in rows], [wi * ri for wi, ri in zip(w, res)])
        if prior is not None:
            g = g - lib.dot([prior[k, j] for j in range(nb)], coeff)
        ctx.eq(g, 0, label + ': coefficients satisfy the normal equations')
    tot = 0
    for wi, ri in zip(w, res):
        tot = tot + wi * ri * ri
    ctx.eq(chi2, tot, label + ': chi2 is the weighted residual sum of squares')


def det(ctx, rows, w, nb, prior=None):
    M = [[lib.dot([wi * r[k] for wi, r in zip(w, rows)], [r[j] for r in rows]) for j in range(nb)] for k in range(nb)]
    if prior is not None:
        M = [[M[k][j] + prior[k, j] for j in range(nb)] for k in range(nb)]
    if nb == 1:
        return M[0][0]
    if nb == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    return (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
            + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]))


def h_scan(ctx, bands, nz, nbasis, rmode, tsym, wmode, nmask=0, batch=False, prior=False):
    spectra, tdata, rows = setup(ctx, bands, nz, nbasis, rmode, tsym, wmode, nmask)
    f, w = flat(spectra, 'flux'), flat(spectra, 'ivar')
    zs = ctx.rr.zscan
    pr = None
    if prior:
        pr = ctx.zeros((nbasis, nbasis))
        for k in range(nbasis):
            pr[k, k] = ctx.real(f'prior{k}', 0)
    if batch:
        weights, flux, wflux = zs.spectral_data(spectra)
        ctx.eq(weights, w, 'concatenated weights')
        ctx.eq(flux, f, 'concatenated flux')
        ctx.eq(wflux, [a * b for a, b in zip(w, f)], 'concatenated weighted flux')
        zchi2, zcoeff = zs.calc_zchi2_batch(spectra, tdata, weights, flux, wflux, nz, nbasis,
                                            solve_matrices_algorithm='PCA', prior=pr, use_gpu=False)
        zchi2, zcoeff = [zchi2], [zcoeff]
    else:
        t = lib.template(ctx, ctx.arr([0.1 * (i + 1) for i in range(nz)]), nbasis)
        tg = ctx.rr.targets.Target(11, spectra)
        zchi2, zcoeff, pen = zs.calc_zchi2([11], [tg], lib.DTemplate(t, tdata))
        ctx.eq(pen, [0] * nz, 'no penalty without an [OII] template')
        ctx.check(zchi2.shape == (1, nz) and zcoeff.shape == (1, nz, nbasis), 'shapes')
    for z in range(nz):
        d = det(ctx, rows[z], w, nbasis, pr)
        ctx.generic(d)
        if ctx.truth(d == 0):
            ctx.eq(zchi2[0][z], HUGE, 'unsolvable fit is reported as the failed-fit chi2')
            ctx.eq([zcoeff[0][z, k] for k in range(nbasis)], [0] * nbasis, 'unsolvable fit has zero coefficients')
            ctx.cover('singular')
        else:
            expect(ctx, rows[z], f, w, zchi2[0][z], [zcoeff[0][z, k] for k in range(nbasis)], nbasis, pr)
            ctx.cover('fit')


def h_again(ctx, batch):
    """call after call, with spectra regrouped, masked and changed in between"""
    spectra, tdata, rows = setup(ctx, ['b', 'r'], 1, 1, 'band', False, 'fixed', 0)
    t = lib.template(ctx, ctx.arr([0.5]), 1)
    zs = ctx.rr.zscan
    nb = len(spectra[0].flux)
    tg = ctx.rr.targets.Target(1, spectra)

    def run(sp, target, rr, label):
        if batch:
            W, F, WF = zs.spectral_data(sp)
            chi2, co = zs.calc_zchi2_batch(sp, {s.wavehash: tdata[s.wavehash] for s in sp}, W, F, WF, 1, 1, solve_matrices_algorithm='PCA')
            chi2, co = [chi2], [co]
        else:
            chi2, co, _ = zs.calc_zchi2([target.id], [target], lib.DTemplate(t, tdata))
        expect(ctx, rr, flat(sp, 'flux'), flat(sp, 'ivar'), chi2[0][0], [co[0][0, 0]], 1, label=label)
    run(spectra, tg, rows[0], 'first')
    one = ctx.rr.targets.Target(2, spectra[:1])
    run(spectra[:1], one, rows[0][:nb], 'one band')
    for s in spectra:
        s.ivar[1] = 0.0
    run(spectra, tg, rows[0], 'masked afterwards')
    spectra[1].flux[0] = ctx.real('other')
    run(spectra, tg, rows[0], 'other flux')
    run(spectra[::-1], ctx.rr.targets.Target(1, spectra[::-1]), rows[0][nb:] + rows[0][:nb], 'other order')
    ctx.cover('done')


def h_precision(ctx, bright):
    """a bright spectrum: chi2 in the full precision of the data"""
    rr = ctx.rr
    flux = [1000.0625 + bright * i + i * i / 1024 for i in range(5)]
    tm = [[1.0, 2.0, 1.0, 3.0, 1.0], [1.0, 2.0, 1.0, 3.0, 1.0009765625], [2.0, 1.0, 0.5, 1.0, 1.0]]
    w = ctx.arr([4000.0 + i for i in range(5)])
    s = rr.targets.Spectrum(w, ctx.arr(flux), ctx.arr([2.0] * 5), lib.dia(ctx, [[1.0] * 5], [0], 5), None, band='b')
    tg = rr.targets.Target(3, [s])
    tdata = {s.wavehash: ctx.arr([[[x] for x in row] for row in tm])}
    t = lib.template(ctx, ctx.arr([0.5, 1.0, 1.5]), 1)
    zs = rr.zscan
    chi2, co, _ = zs.calc_zchi2([3], [tg], lib.DTemplate(t, tdata))
    W, F, WF = zs.spectral_data([s])
    batch, bco = zs.calc_zchi2_batch([s], tdata, W, F, WF, 3, 1, solve_matrices_algorithm='PCA')
    for z, row in enumerate(tm):
        row, fl = [Fraction(x) for x in row], [Fraction(x) for x in flux]
        a = sum(x * y for x, y in zip(row, fl)) / sum(x * x for x in row)
        c = 2 * sum((y - a * x) ** 2 for x, y in zip(row, fl))
        for got, what in ((chi2[0][z], 'scan'), (batch[z], 'batch')):
            ctx.check(abs(float(got) - float(c)) < 1e-10 * float(c), f'{what}: chi2 in double precision')
        for got, what in ((co[0][z, 0], 'scan'), (bco[z, 0], 'batch')):
            ctx.check(abs(float(got) - float(a)) < 1e-10 * float(a), f'{what}: coefficients in double precision')
    ctx.cover('done')


def h_masked(ctx, nbasis):
    """flux values of pixels with zero weight never matter"""
    res = []
    for name in 'pq':
        sp, td, rows = setup(ctx, ['b', 'r'], 1, nbasis, 'band', False, 'fixed', 0)
        for s in sp:
            s.ivar[1] = 0.0
            s.flux[1] = ctx.real(name + str(s.wavehash))
        t = lib.template(ctx, ctx.arr([0.5]), nbasis)
        tg = ctx.rr.targets.Target(1, sp)
        res.append(ctx.rr.zscan.calc_zchi2([1], [tg], lib.DTemplate(t, td)))
    ctx.eq(res[0][0], res[1][0], 'chi2 independent of masked flux')
    ctx.eq(res[0][1], res[1][1], 'coefficients independent of masked flux')
    ctx.cover('done')


def h_targets(ctx, ntarg):
    """several targets, some fully masked: each row is that target's own fit"""
    nz, nb = 2, 1
    tgs, alls = [], []
    td = None
    masked = ctx.choice('masked', ntarg + 1)       # ntarg: none
    for i in range(ntarg):
        n = len(WAVES['r'])
        iv = ctx.arr([0.0] * n) if i == masked else ctx.arr([1.0 + i, 2.0])
        s = ctx.rr.targets.Spectrum(ctx.arr(WAVES['r']), ctx.reals(f'f{i}', n), iv,
                                    lib.dia(ctx, [[1.0] * n], [0], n), None, band='r')
        tgs.append(ctx.rr.targets.Target(100 - i, [s]))
        alls.append(s)
    tsym = ctx.reals('t', (nz, 2, nb))
    for z in range(nz):
        ctx.require(tsym[z, 0, 0] > 0)
    td = {'r': tsym}
    t = lib.template(ctx, ctx.arr([0.1, 0.2]), nb)
    zchi2, zcoeff, pen = ctx.rr.zscan.calc_zchi2([x.id for x in tgs], tgs, lib.DTemplate(t, td))
    for i in range(ntarg):
        for z in range(nz):
            if i == masked:
                ctx.eq(zchi2[i, z], HUGE, 'target without data gets the failed-fit chi2')
                ctx.eq(zcoeff[i, z], [0] * nb, 'target without data gets zero coefficients')
            else:
                expect(ctx, [[tsym[z, k, 0]] for k in range(2)], list(alls[i].flux), list(alls[i].ivar), zchi2[i, z],
                       [zcoeff[i, z, 0]], nb, label='multi-target')
    ctx.cover('masked' if masked < ntarg else 'all good')


def h_penalty(ctx, nz, nb, nw):
    """negative [OII] flux is penalised by its size, positive not at all"""
    oii, c = ctx.reals('o', (nw, nb)), ctx.reals('c', (nz, nb))
    # layout of the coefficients @ template product: (nz, nb) @ (nb, nw)
    p = ctx.rr.zscan.calc_negOII_penalty(oii.T, c)
    ctx.check(p.shape == (nz,), 'shape')
    for z in range(nz):
        tot = 0
        for i in range(nw):
            tot = tot + lib.dot([c[z, k] for k in range(nb)], [oii[i, k] for k in range(nb)])
        ctx.eq(p[z], ctx.ite(tot < 0, -tot, 0), 'penalty')
        ctx.le(0, p[z], 'penalty never negative')
    ctx.cover('done')


def h_scan_penalty(ctx):
    """the scan applies the penalty to templates that define an [OII] region, per target and redshift"""
    nz, nb = 2, 1
    n = 2
    s = ctx.rr.targets.Spectrum(ctx.arr(WAVES['r']), ctx.reals('f', n), ctx.arr([1.0, 2.0]),
                                lib.dia(ctx, [[1.0] * n], [0], n), None, band='r')
    tdat = ctx.zeros((nz, n, nb))
    for z in range(nz):
        for i in range(n):
            tdat[z, i, 0] = ctx.const(1 + z + 2 * i)
    oii = ctx.reals('o', (nb, 2))
    t = lib.template(ctx, ctx.arr([0.1, 0.2]), nb, OIItemplate=oii)
    zchi2, zcoeff, pen = ctx.rr.zscan.calc_zchi2([5], [ctx.rr.targets.Target(5, [s])], lib.DTemplate(t, {'r': tdat}))
    for z in range(nz):
        tot = zcoeff[0, z, 0] * (oii[0, 0] + oii[0, 1])
        ctx.eq(pen[0, z], ctx.ite(tot < 0, -tot, 0), 'penalty from this target and redshift')
    expect(ctx, [[tdat[0, k, 0]] for k in range(n)], list(s.flux), list(s.ivar), zchi2[0, 0], [zcoeff[0, 0, 0]], nb,
           label='penalised scan')
    ctx.cover('done')


def h_one(ctx, nb):
    """single-redshift variant used by the refinement"""
    sp, td, rows = setup(ctx, ['b', 'r'], 1, nb, 'band', False, 'sym' if nb == 1 else 'fixed', 0)
    zs = ctx.rr.zscan
    if not hasattr(zs, 'calc_zchi2_one'):
        ctx.check(True, 'not present')
        ctx.cover('fit')
        return
    w, f, wf = zs.spectral_data(sp)
    chi2, coeff = zs.calc_zchi2_one(sp, w, f, wf, {k: v[0] for k, v in td.items()}, 'PCA')
    ctx.generic(det(ctx, rows[0], list(w), nb))
    if ctx.truth(det(ctx, rows[0], list(w), nb) == 0):
        ctx.eq(chi2, HUGE, 'unsolvable fit is reported as the failed-fit chi2')
        ctx.eq(list(coeff), [0] * nb, 'unsolvable fit has zero coefficients')
    else:
        expect(ctx, rows[0], list(f), list(w), chi2, list(coeff), nb, label='single')
        ctx.cover('fit')


def h_resmask(ctx, n):
    """pixels whose resolution row integral is below the minimum get no weight, the others keep theirs"""
    data = ctx.reals('r', (3, n), 0, 1)
    offs = [1, 0, -1]
    iv = ctx.reals('w', n, 0)
    iv0 = [x for x in iv]
    s = ctx.rr.targets.Spectrum(ctx.arr([10.0 * (i + 1) for i in range(n)]), ctx.reals('f', n), iv,
                                lib.dia(ctx, data, offs, n), None, band='b')
    m = lib.dense(([[data[k, j] for j in range(n)] for k in range(3)], offs), n)
    lim = ctx.rr.constants.min_resolution_integral
    for i in range(n):
        tot = 0
        for j in range(n):
            tot = tot + m[i][j]
        ctx.eq(s.ivar[i], ctx.ite(tot < lim, 0, iv0[i]), 'weight zeroed exactly where the resolution row is truncated')
    R = s.Rcsr
    v = ctx.arr([1.0 + i for i in range(n)])
    ctx.eq(R.dot(v), lib.matvec(m, list(v)), 'CSR form equals the banded matrix')
    ctx.cover('done')


def configs(tier):
    th = tier == 'thorough'
    c = []

    def add(name, fn, bounds, cover=('fit',), **params):
        c.append(dict(name=name, fn=fn, params=params, bounds=bounds, cover=list(cover), validate=4))
    add('scan_b1_all_symbolic', h_scan, '2 spectra (3+2 pixels), 2 redshifts, 1 basis vector, everything symbolic, R=identity',
        ('fit', 'singular'), bands=['b', 'r'], nz=2, nbasis=1, rmode='id', tsym=True, wmode='sym')
    add('scan_b1_band', h_scan, 'as above, tridiagonal R, one redshift', ('fit', 'singular'), bands=['b', 'r'], nz=1,
        nbasis=1, rmode='band', tsym=True, wmode='sym')
    add('scan_b2', h_scan, '2 spectra, 2 redshifts, 2 basis vectors, fixed template, symbolic flux and weights',
        ('fit', 'singular'), bands=['b', 'r'], nz=2, nbasis=2, rmode='band', tsym=False, wmode='sym')
    add('scan_b3', h_scan, '3 spectra, 2 redshifts, 3 basis vectors, fixed template and weights, symbolic flux',
        ('fit',), bands=['b', 'r', 'z'], nz=2, nbasis=3, rmode='band', tsym=False, wmode='fixed')
    add('scan_b2_order', h_scan, 'spectra given in another order', ('fit',), bands=['z', 'b', 'r'], nz=1, nbasis=2,
        rmode='band', tsym=False, wmode='fixed')
    add('scan_exposures', h_scan, '3 spectra, two of them on one wavelength grid with different resolution', ('fit',),
        bands=['b', 'r', 'b'], nz=2, nbasis=2, rmode=['id', 'band', 'band'], tsym=False, wmode='fixed')
    add('scan_many', h_scan, '300 redshifts, 1 spectrum of 2 pixels, 1 basis vector', ('fit',), bands=['r'], nz=300, nbasis=1,
        rmode='id', tsym=False, wmode='fixed')
    add('batch_prior', h_scan, '2 basis vectors, symbolic prior diagonal and flux', ('fit',), bands=['b', 'r'], nz=2,
        nbasis=2, rmode='band', tsym=False, wmode='fixed', batch=True, prior=True)
    add('batch_mask', h_scan, '2 masked pixels, symbolic weights', ('fit', 'singular'), bands=['b', 'r'], nz=1, nbasis=2,
        rmode='id', tsym=False, wmode='sym', nmask=2, batch=True)
    if th:
        add('scan_b2_tsym', h_scan, '1 spectrum of 3 pixels, 2 basis vectors, everything symbolic', ('fit', 'singular'),
            bands=['b'], nz=1, nbasis=2, rmode='id', tsym=True, wmode='sym')
        add('scan_b3_w', h_scan, '3 basis vectors, symbolic weights and flux', ('fit',), bands=['b', 'r', 'z'],
            nz=1, nbasis=3, rmode='id', tsym=False, wmode='pos')
    add('again', h_again, '5 calls, 2 spectra of 3+2 pixels', ('done',), batch=False)
    add('again_batch', h_again, '5 calls, 2 spectra of 3+2 pixels', ('done',), batch=True)
    add('precision', h_precision, '3 redshifts, 5 pixels of flux above 1000, all fixed', ('done',), bright=16.0)
    add('masked_flux', h_masked, '2 spectra, masked pixels with two arbitrary fluxes', ('done',), nbasis=2)
    add('targets3', h_targets, '3 targets, any one of them (or none) without data', ('masked', 'all good'), ntarg=3)
    add('penalty', h_penalty, '2 redshifts, 2 coefficients, 3 pixels', ('done',), nz=2, nb=2, nw=3)
    add('scan_penalty', h_scan_penalty, '2 redshifts', ('done',))
    add('one_b1', h_one, 'single redshift, 1 basis', nb=1)
    add('one_b2', h_one, 'single redshift, 2 bases', nb=2)
    add('resolution_mask', h_resmask, '3 pixels, symbolic tridiagonal resolution', ('done',), n=3)
    return c
