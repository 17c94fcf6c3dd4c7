"""C21: the GPU code path gives the same answer as the CPU code path, and its kernels stay inside their arrays."""
import types

import numpy as np

from .. import fakecupy, lib

PROPERTY = 'C21'
ASSUMPTIONS = ['cupy is a stand-in: device arrays hold host data, refuse implicit mixing with numpy arrays and start out with arbitrary values; '
               'kernels are the CUDA source of /repo compiled to LLVM IR and executed thread by thread',
               'normal equations are not singular (cupy does not report singular systems)',
               'arithmetic is exact; summation order and single-ulp differences between searchsorted and the product x*(1+z) are outside',
               'nnls / lsq_linear return the same answer when called twice with the same arguments']


def host(x):
    return x.get() if isinstance(x, fakecupy.CArr) else x


def same(ctx, g, c, label):
    g = host(g)
    ctx.check(tuple(np.shape(g)) == tuple(np.shape(c)), label + ': shape', f'{np.shape(g)} {np.shape(c)}')
    ctx.eq(g, c, label)


def attempt(f):
    """-> (exception class name, value)"""
    try:
        return None, f()
    except (ValueError, NotImplementedError) as e:
        return type(e).__name__, None


def h_rebin(ctx, xs, es, zs, nbasis, zform, ysym=True, loc='host', off=None):
    cp = fakecupy.install(ctx)
    x = ctx.arr(xs)
    ne = len(es)
    e = ctx.arr(es) if off is None else ctx.arr([ctx.real(f'e{i}', v - off, v + off) for i, v in enumerate(es)])
    for i in range(ne - 1):
        ctx.require(e[i] < e[i + 1])
    nx = len(xs)
    y = ctx.reals('y', nx if nbasis == 0 else (nbasis, nx))
    if zs is None:
        z = ctx.reals('z', 2 if zform == 'arr' else 1, 0, 3)
    else:
        z = ctx.arr(zs)
    kw = {'none': {}, 'scalar': dict(myz=z[0]), 'arr': dict(myz=z)}[zform]
    reb = ctx.rr.rebin
    ce, cv = attempt(lambda: reb.trapz_rebin(x, y, edges=e, **kw))
    gx, gy, gkw, ge_ = x, y, dict(kw), e
    if loc == 'dev':
        gx, gy, ge_ = cp.asarray(x), cp.asarray(y), cp.asarray(e)
        if 'myz' in kw and zform == 'arr':
            gkw['myz'] = cp.asarray(z)
    ge, gv = attempt(lambda: reb.trapz_rebin(gx, gy, edges=ge_, use_gpu=True, **gkw))
    ctx.check(ce == ge, 'the same inputs are refused', f'{ce} {ge}')
    if ce is None:
        ctx.check(isinstance(gv, fakecupy.CArr), 'result on the device')
        same(ctx, gv, cv, 'rebinned flux')
        ctx.cover('done')
    else:
        ctx.cover('refused')


def h_rebin_centers(ctx, n):
    fakecupy.install(ctx)
    x, w = ctx.arr([1, 2, 4, 5, 8, 11]), ctx.arr([3, 3.5, 4.25][:n])
    y = ctx.reals('y', (2, 6))
    z = ctx.reals('z', 1, 0, 0.25)
    reb = ctx.rr.rebin
    same(ctx, reb.trapz_rebin(x, y, w, myz=z, use_gpu=True), reb.trapz_rebin(x, y, w, myz=z), 'rebinned flux')
    ctx.check(tuple(reb.trapz_rebin(x, y, w, myz=ctx.arr([]), use_gpu=True).shape)[:2] == (0, n), 'no redshifts, no rows')
    ctx.cover('done')


def h_template(ctx, edges, loc, nz=1):
    cp = fakecupy.install(ctx)
    w, f = ctx.arr([2, 3, 4, 6, 9]), ctx.reals('f', (2, 5))
    t = types.SimpleNamespace(wave=w, flux=f, minwave=w[0], maxwave=w[-1], gpuwave=None, gpuflux=None, nbasis=2)
    z = ctx.reals('z', nz, 0, 1)
    grids = {'b': ctx.arr([3.5, 4.0, 4.5]), 'r': ctx.arr([5.0, 5.5])}
    reb = ctx.rr.rebin
    ce, cv = attempt(lambda: reb.rebin_template(t, z, grids))
    if loc == 'dev':
        t.gpuwave, t.gpuflux = cp.asarray(w), cp.asarray(f)
    if edges:
        ed = {k: reb.centers2edges(v) for k, v in grids.items()}
        ge, gv = attempt(lambda: reb.rebin_template(t, cp.asarray(z), dedges={k: (cp.asarray(v), v[0], v[-1]) for k, v in ed.items()}, use_gpu=True))
    else:
        ge, gv = attempt(lambda: reb.rebin_template(t, z, grids, use_gpu=True))
    ctx.check(ce == ge, 'the same inputs are refused', f'{ce} {ge}')
    if ce is None:
        ctx.check(sorted(gv) == sorted(cv), 'one result per grid')
        for k in cv:
            same(ctx, gv[k], cv[k], 'rebinned template')
        ctx.cover('done')
    else:
        ctx.cover('refused')


def lcg(i, m=11):
    return float((i * 7 + 3 + (i * i) % 5) % m - 4)


def h_dot33(ctx, nz, nrows, ncols, transpose, full):
    """the batched matrix product, every partition of the rows among threads"""
    cp = fakecupy.install(ctx)
    a = ctx.zeros((nz, nrows, ncols))
    for n, i in enumerate(np.ndindex(nz, nrows, ncols)):
        a[i] = ctx.const(lcg(n))
    b = ctx.reals('b', (nz, nrows, ncols))
    at = a if transpose else a.swapaxes(-2, -1).copy()
    if not transpose and ctx.symbolic:
        from .. import snp
        at = snp.mk(np.ascontiguousarray(snp.raw(at)), snp.F8)
    elif not transpose:
        at = np.ascontiguousarray(at)
    g = ctx.rr.zscan.calc_batch_dot_product_3d3d_gpu(cp.asarray(at), cp.asarray(b), transpose_a=transpose, fullprecision=full)
    g = host(g)
    ctx.check(tuple(g.shape) == (nz, ncols, ncols), 'shape')
    for z in range(nz):
        for i in range(ncols):
            for j in range(ncols):
                # M[z] is used for symmetric products only: the transposed layout is allowed for them
                ctx.eq(g[z, i, j], lib.dot([a[z, r, j] for r in range(nrows)], [b[z, r, i] for r in range(nrows)]), 'batched product')
    ctx.cover('done')


def h_dot33sym(ctx, nz, nrows, ncols, full):
    """T^t W T as the scan uses it"""
    cp = fakecupy.install(ctx)
    a = ctx.reals('a', (nz, nrows, ncols))
    w = [ctx.const(1 + (3 * i) % 4) for i in range(nrows)]
    b = ctx.zeros((nz, nrows, ncols))
    for z, r, k in np.ndindex(nz, nrows, ncols):
        b[z, r, k] = w[r] * a[z, r, k]
    g = host(ctx.rr.zscan.calc_batch_dot_product_3d3d_gpu(cp.asarray(a), cp.asarray(b), transpose_a=True, fullprecision=full))
    for z in range(nz):
        for i in range(ncols):
            for j in range(ncols):
                ctx.eq(g[z, i, j], lib.dot([a[z, r, i] for r in range(nrows)], [b[z, r, j] for r in range(nrows)]), 'normal matrix')
    ctx.cover('done')


def h_dot32(ctx, nz, nrows, nb):
    cp = fakecupy.install(ctx)
    T = ctx.zeros((nz, nrows, nb))
    for n, i in enumerate(np.ndindex(nz, nrows, nb)):
        T[i] = ctx.const(lcg(n))
    c = ctx.reals('c', (nz, nb))
    zs = ctx.rr.zscan
    zs.cp = cp
    same(ctx, zs.calc_batch_dot_product_3d2d(cp.asarray(T), cp.asarray(c), True), zs.calc_batch_dot_product_3d2d(T, c, False), 'model')
    ctx.cover('done')


WAVES = {'b': [3600.0, 3601.0, 3602.0], 'r': [6000.0, 6001.0], 'z': [8000.0, 8001.0, 8002.0, 8003.0]}


def spectra(ctx, bands, rmode, wmode):
    out = []
    for ib, b in enumerate(bands):
        n = len(WAVES[b])
        iv = {'fix': lambda: ctx.arr([float(1 + (2 * i + ib) % 3) for i in range(n)]), 'zero': lambda: ctx.arr([0.0] * n),
              'part': lambda: ctx.arr([float((2 * i + ib) % 3) for i in range(n)])}[wmode]()
        out.append(lib.spectrum(ctx, b + str(ib), WAVES[b], rmode, band=b, ivar=iv))
    return out


def tdat(ctx, sp, nz, nb, tsym=False, shift=0):
    td = {}
    for k, s in enumerate(sp):
        n = len(s.wave)
        t = ctx.reals(f't{k}', (nz, n, nb), 1, 2) if tsym else ctx.zeros((nz, n, nb))
        if not tsym:
            for i in np.ndindex(nz, n, nb):
                t[i] = ctx.const(((3 * i[1] + 5 * i[2] + 7 * k + 2 * i[0] + i[1] * i[1] * i[2] + shift) % 11) - 4)
        td[s.wavehash] = t
    return td


def dev(cp, td):
    return {k: cp.asarray(v) for k, v in td.items()}


class Solver:
    """nnls / lsq_linear: arbitrary answers, the same ones for the same question"""

    def __init__(self, ctx, nb):
        self.ctx, self.nb, self.log, self.k, self.replay = ctx, nb, [], 0, False
        ctx.hook_solver('nnls', lambda A, b, *a, **k: (self.ask(A, b, None), 0.0))
        ctx.hook_solver('lsq_linear', lambda A, b, bounds=None, method=None, **k: types.SimpleNamespace(x=self.ask(A, b, (bounds, method))))

    def ask(self, A, b, extra):
        if not self.replay:
            r = self.ctx.reals(f'sol{len(self.log)}', self.nb)
            self.log.append((A, b, extra, r))
            return r.copy()
        if self.k >= len(self.log):
            self.ctx.fail('solver called as often as on the CPU')
        A0, b0, e0, r = self.log[self.k]
        self.k += 1
        self.ctx.eq(A, A0, 'normal matrix handed to the solver')
        self.ctx.eq(b, b0, 'right-hand side handed to the solver')
        if extra is not None:
            bd, bd0 = [np.asarray(x[0], dtype=float) for x in (extra, e0)]
            self.ctx.check(bd.shape == bd0.shape and bool(np.all(bd == bd0)), 'bounds handed to the solver')
            self.ctx.check(extra[1] == e0[1], 'method handed to the solver')
        return r.copy()


def h_batch(ctx, bands, nz, nb, method, rmode='tri', wmode='fix', prior=False, tsym=False, full=True, bnds=False, lowmem=False):
    cp = fakecupy.install(ctx)
    sp = spectra(ctx, bands, rmode, wmode)
    td = tdat(ctx, sp, nz, nb, tsym)
    zs = ctx.rr.zscan
    if lowmem:
        zs.cp_memcheck = True
        ctx.onclose(lambda: setattr(zs, 'cp_memcheck', False))
    pr = None
    if prior:
        pr = ctx.zeros((nb, nb))
        for k in range(nb):
            pr[k, k] = ctx.const(k + 1)
        if nb > 1:
            pr[0, 1] = pr[1, 0] = ctx.const(0.5)
    sol = Solver(ctx, nb) if method != 'PCA' else None
    kw = dict(solve_matrices_algorithm=method, prior=pr, fullprecision=full)
    if bnds:
        bd = np.zeros((2, nb))
        bd[1] = np.inf
        kw['solver_args'] = {'bounds': bd}
    w, f, wf = zs.spectral_data(sp)
    cc, cco = zs.calc_zchi2_batch(sp, td, w, f, wf, nz, nb, use_gpu=False, **kw)
    if sol:
        sol.replay = True
    tg = ctx.rr.targets.Target(5, sp)
    gw, gf, gwf = tg.gpu_spectral_data()
    same(ctx, gw, w, 'weights on the device')
    same(ctx, gf, f, 'flux on the device')
    same(ctx, gwf, wf, 'weighted flux on the device')
    gc, gco = zs.calc_zchi2_batch(sp, dev(cp, td), gw, gf, gwf, nz, nb, use_gpu=True, **kw)
    ctx.check(not isinstance(gc, fakecupy.CArr) and not isinstance(gco, fakecupy.CArr), 'chi2 and coefficients are returned on the host')
    same(ctx, gc, cc, 'chi2')
    same(ctx, gco, cco, 'coefficients')
    if sol:
        ctx.check(sol.k == len(sol.log), 'solver called as often as on the CPU')
    ctx.cover('done')


def h_badmethod(ctx):
    cp = fakecupy.install(ctx)
    sp = spectra(ctx, ['r'], 'id', 'fix')
    td = tdat(ctx, sp, 2, 1)
    zs = ctx.rr.zscan
    w, f, wf = zs.spectral_data(sp)
    r = zs.calc_zchi2_batch(sp, dev(cp, td), cp.asarray(w), cp.asarray(f), cp.asarray(wf), 2, 1, solve_matrices_algorithm='XYZ', use_gpu=True)
    c = zs.calc_zchi2_batch(sp, td, w, f, wf, 2, 1, solve_matrices_algorithm='XYZ', use_gpu=False)
    same(ctx, r[0], c[0], 'chi2 of an unknown method')
    same(ctx, r[1], c[1], 'coefficients of an unknown method')
    ctx.cover('done')


def h_scan(ctx, ntarg, nz, nb, oii):
    """the coarse scan of several targets, one of them possibly fully masked"""
    cp = fakecupy.install(ctx)
    tgs = []
    masked = ctx.choice('masked', ntarg + 1)
    for i in range(ntarg):
        n = 3
        sp = []
        for b in ('b', 'r'):
            m = len(WAVES[b])
            iv = ctx.arr([0.0] * m) if i == masked else ctx.arr([float(1 + (i + j) % 3) for j in range(m)])
            s = lib.spectrum(ctx, f'{b}{i}', WAVES[b], 'tri', band=b, ivar=iv)
            sp.append(s)
        tgs.append(ctx.rr.targets.Target(40 + i, sp))
    td = tdat(ctx, tgs[0].spectra, nz, nb)
    t = lib.template(ctx, ctx.arr([0.1 * (i + 1) for i in range(nz)]), nb)
    if oii:
        t.OIItemplate = ctx.arr([[1.0, 2.0], [0.5, -1.0]])[:nb]
    zs = ctx.rr.zscan
    ids = [x.id for x in tgs]
    c = zs.calc_zchi2(ids, tgs, lib.DTemplate(t, td))
    g = zs.calc_zchi2(ids, tgs, lib.DTemplate(t, dev(cp, td)), use_gpu=True)
    for a, b, n in zip(g, c, ('chi2', 'coefficients', 'penalty')):
        same(ctx, a, b, n)
    g = zs.calc_zchi2(ids, tgs, lib.DTemplate(t, dev(cp, td)), use_gpu=True)
    same(ctx, g[0], c[0], 'chi2 of a second scan')
    ctx.cover('done')


def igm_cp(ctx, cp):
    m = ctx.rr.igm
    if not ctx.symbolic:
        # imported before the stand-in was there
        old = m.cp
        m.cp = cp
        ctx.onclose(lambda: setattr(m, 'cp', old))


def h_igm(ctx, model, nz, nw, zr, lr, rows=2, always=True, fixl=None):
    from . import c13_igm
    cp = fakecupy.install(ctx)
    if model == 'Inoue14':
        c13_igm.limit_rows(ctx, rows)
    zs = ctx.arr([ctx.real(f'z{i}', zr[0], zr[1]) for i in range(nz)])
    ls = ctx.arr(fixl) if fixl else ctx.arr([ctx.real(f'l{i}', lr[0], lr[1]) for i in range(nw)])
    ig = ctx.rr.igm
    igm_cp(ctx, cp)
    c = ig.transmission_Lyman(zs, ls, model=model, always_return_array=always)
    g = ig.transmission_Lyman(zs, ls, model=model, always_return_array=always, use_gpu=True)
    ctx.check((c is None) == (g is None), 'absorption found on both or neither')
    if c is None:
        ctx.cover('none')
        return
    ctx.check(isinstance(g, fakecupy.CArr), 'transmission on the device')
    same(ctx, g, c, 'transmission')
    ctx.cover('done')


def h_dist(ctx, igm, mode):
    """the rebinned, absorbed template grid"""
    cp = fakecupy.install(ctx)
    r = ctx.rr
    r.templates
    igm_cp(ctx, cp)
    w = ctx.arr([600, 1300, 2000, 3000, 4500, 9000])
    f = ctx.reals('f', (2, 6))
    t = types.SimpleNamespace(wave=w, flux=f, minwave=w[0], maxwave=w[-1], gpuwave=None, gpuflux=None, nbasis=2,
                              redshifts=ctx.arr([0.2, 1.0, 2.4]), igm_model=igm)
    grids = {'b': ctx.arr([3600.0, 3700.0, 3900.0]), 'r': ctx.arr([5000.0, 5100.0])}
    D = r.templates.DistTemplate
    c = D(t, grids)
    if mode == 'cpu-proc':
        g = D(t, grids, use_gpu=False, gpu_mode=True)
        ctx.check(len(g.local.redshifts) == 0 and g.local.data == {}, 'a process without GPU holds nothing in GPU mode')
        g = r.templates.ReDistTemplate(t, grids, use_gpu=False, gpu_mode=True)
        ctx.check(g.cycle() is True, 'no passing on of slices in GPU mode')
    else:
        cls = r.templates.ReDistTemplate if mode == 'redist' else D
        g = cls(t, grids, use_gpu=True, gpu_mode=True)
        ctx.eq(g.local.redshifts, c.local.redshifts, 'all redshifts')
        for k in grids:
            ctx.check(isinstance(g.local.data[k], fakecupy.CArr), 'data on the device')
            same(ctx, g.local.data[k], c.local.data[k], 'template grid')
        ctx.check(g.cycle() is True, 'a single pass')
    ctx.cover('done')


def h_caches(ctx, ops):
    """per-target device data are those of the present request, whatever was asked before"""
    fakecupy.install(ctx)
    sp = [lib.spectrum(ctx, b, WAVES[b], 'id', band=b) for b in ('b', 'z')]
    tg = ctx.rr.targets.Target(3, sp)
    for s in sp:
        same(ctx, s.gpuwave, s.wave, 'wavelengths on the device')
        e = ctx.rr.rebin.centers2edges(s.wave)
        same(ctx, s.gpuedges, e, 'bin edges on the device')
        ctx.eq([s.minedge, s.maxedge], [e[0], e[-1]], 'first and last bin edge')
        same(ctx, s.gpuedges, e, 'bin edges on the device')
    for i in range(ops):
        n, gpu = ctx.choice(f'n{i}', 3), ctx.flag(f'g{i}')
        got = tg.legendre(nleg=n, use_gpu=gpu)
        fresh = ctx.rr.targets.Target(4, sp).legendre(nleg=n)
        ctx.check(sorted(got) == sorted(fresh), 'Legendre terms for every wavelength grid')
        for k in fresh:
            ctx.check(isinstance(got[k], fakecupy.CArr) == gpu, 'Legendre terms on the device asked for')
            same(ctx, got[k], fresh[k], 'Legendre terms of the degree asked for')
        ctx.cover('gpu' if gpu else 'cpu')


def h_coadd_data(ctx, order):
    """the spectral data on the device are those of the target's present spectra"""
    fakecupy.install(ctx)
    n = 3
    sp = []
    for k, b in enumerate(order):
        s = lib.spectrum(ctx, f's{k}', WAVES[b], 'id', band=b, lo=1)
        sp.append(s)
    tg = ctx.rr.targets.Target(3, list(sp))

    def agree(msg):
        xp = ctx.np
        got = tg.gpu_spectral_data()
        w = xp.concatenate([s.ivar for s in tg.spectra])
        f = xp.concatenate([s.flux for s in tg.spectra])
        for g, e, nm in zip(got, (w, f, w * f), ('weights', 'flux', 'weighted flux')):
            ctx.check(isinstance(g, fakecupy.CArr), 'data on the device')
            same(ctx, g, e, f'{nm} on the device {msg}')
    if ctx.flag('asked'):
        agree('before the coadd')
        agree('when asked again')
    tg.compute_coadd()
    agree('after the coadd')
    agree('after the coadd')
    ctx.cover('done')


class Fits:
    """calc_zchi2_batch: arbitrary chi2 and coefficients, the same for the same question"""

    def __init__(self, ctx, thin=False):
        self.ctx, self.log, self.k, self.replay, self.thin = ctx, [], 0, False, thin

    def __call__(self, spectra, tdata, weights, flux, wflux, nz, nbasis, solve_matrices_algorithm=None, solver_args=None, use_gpu=False,
                 fullprecision=True, prior=None):
        ctx = self.ctx
        if use_gpu:
            for v in list(tdata.values()) + [weights, flux, wflux]:
                ctx.check(isinstance(v, fakecupy.CArr), 'batched chi2 on the device is given device arrays')
        td = {k: host(v) for k, v in tdata.items()}
        q = dict(td=td, w=host(weights), f=host(flux), wf=host(wflux))
        meta = (nz, nbasis, (solve_matrices_algorithm or '').upper(), [id(s) for s in spectra])
        bd = None if not solver_args else np.asarray(solver_args['bounds'], dtype=float)
        if not self.replay:
            i = len(self.log)
            if self.thin:
                # one value of each scan is arbitrary
                c = ctx.arr([float(10 + (7 * j + 3 * i) % 5) for j in range(nz)])
                c[min(1, nz - 1)] = ctx.real(f'chi{i}', 0, 100)
            else:
                c = ctx.reals(f'chi{i}', nz, 0, 100)
            co = ctx.reals(f'co{i}', (nz, nbasis))
            self.log.append((q, meta, bd, None if prior is None else host(prior), c, co))
            return c.copy(), co.copy()
        if self.k >= len(self.log):
            ctx.fail('as many fits as on the CPU')
            raise ValueError('too many fits')
        q0, meta0, bd0, pr0, c, co = self.log[self.k]
        self.k += 1
        if meta0[0] == 1 and nz > 1 and self.k + nz - 1 <= len(self.log):
            # the CPU may ask for one archetype at a time
            xp = ctx.np
            rest = self.log[self.k:self.k + nz - 1]
            self.k += nz - 1
            for r in rest:
                ctx.check(r[1] == meta0, 'size and method of the fit')
                for k in ('w', 'f', 'wf'):
                    same(ctx, r[0][k], q0[k], 'spectrum of the fit')
            q0 = dict(q0, td={k: xp.concatenate([q0['td'][k]] + [r[0]['td'][k] for r in rest]) for k in q0['td']})
            meta0 = (nz,) + meta0[1:]
            c, co = xp.concatenate([c] + [r[4] for r in rest]), xp.concatenate([co] + [r[5] for r in rest])
        ctx.check(meta == meta0, 'size and method of the fit', f'{meta} {meta0}')
        ctx.check(sorted(td) == sorted(q0['td']), 'template data for every wavelength grid')
        for k in td:
            same(ctx, td[k], q0['td'][k], 'template data of the fit')
        for k in ('w', 'f', 'wf'):
            same(ctx, q[k], q0[k], 'spectrum of the fit')
        ctx.check((bd is None) == (bd0 is None) and (bd is None or (bd.shape == bd0.shape and bool((bd == bd0).all()))), 'bounds of the fit')
        ctx.check((prior is None) == (pr0 is None), 'prior of the fit')
        if pr0 is not None:
            same(ctx, prior, pr0, 'prior of the fit')
        return c.copy(), co.copy()


def fitz_setup(ctx, bands, igm, loc, cp, zc=(0.4, 0.5, 0.6)):
    rr = ctx.rr
    rr.fitz
    igm_cp(ctx, cp)
    sp = [lib.spectrum(ctx, b, WAVES[b], 'id', band=b, ivar=ctx.arr([float(i % 3) for i in range(len(WAVES[b]))])) for b in bands]
    tg = rr.targets.Target(9, sp)
    w = ctx.arr([500.0, 900.0, 1500.0, 3000.0, 5000.0, 9000.0, 12000.0])
    fl = ctx.zeros((2, 7))
    for i in np.ndindex(2, 7):
        fl[i] = ctx.const(lcg(7 * i[0] + i[1]))
    t = lib.template(ctx, ctx.arr(list(zc)), 2, wave=w, flux=fl, minwave=w[0], maxwave=w[-1], igm_model=igm)
    return tg, t


def cmp_tables(ctx, g, c):
    ctx.check(type(g).__name__ == type(c).__name__, 'the same kind of result')
    if isinstance(c, dict) or hasattr(c, 'colnames'):
        return cmp_row(ctx, g, c)
    ctx.check(len(g) == len(c), 'the same number of candidates')
    for a, b in zip(g, c):
        cmp_row(ctx, a, b)


def cmp_row(ctx, g, c):
    gn, cn = [sorted(t.colnames if hasattr(t, 'colnames') else t) for t in (g, c)]
    ctx.check(gn == cn, 'the same columns', f'{gn} {cn}')
    for k in cn:
        if k in gn:
            same(ctx, np.asarray(g[k]) if not ctx.symbolic else g[k], c[k], 'column ' + k)


def h_fitz(ctx, bands, igm, loc, oii=False, parab=True, symz=False):
    cp = fakecupy.install(ctx)
    tg, t = fitz_setup(ctx, bands, igm, loc, cp)
    rr = ctx.rr
    if oii:
        t.OIItemplate = ctx.arr([[1.0], [-1.0]])
    fits = Fits(ctx)
    rr.patch('zscan', 'calc_zchi2_batch', fits)
    zfit = ctx.real('zfit', 0.3, 0.7) if symz else None
    if parab:
        rr.patch('fitz', 'minfit', lambda x, y: ((zfit if symz else x[1]), ctx.const(1), y[1], 0))
    x = ctx.arr([5.0, 3.0, 4.0])
    ce, c = attempt(lambda: rr.fitz.fitz(x, t.redshifts, tg, t, nminima=2, zminfit_npoints=3))
    fits.replay = True
    if loc == 'dev':
        t.gpuwave, t.gpuflux = cp.asarray(t.wave), cp.asarray(t.flux)
    ge, g = attempt(lambda: rr.fitz.fitz(x, t.redshifts, tg, t, nminima=2, zminfit_npoints=3, use_gpu=True))
    ctx.check(ce == ge, 'the same inputs are refused', f'{ce} {ge}')
    if ce is None:
        cmp_tables(ctx, g, c)
        ctx.check(fits.k == len(fits.log), 'as many fits as on the CPU')
        ctx.cover('done')


def h_zfind(ctx, igm, ntmpl=1, scanfile=False):
    """scan and fit of one target with everything but the batched chi2 real"""
    from . import c07_zfind as Z
    cp = fakecupy.install(ctx)
    tg, t = fitz_setup(ctx, ['b', 'r'], igm, 'host', cp)
    ts = [t]
    if ntmpl > 1:
        _, t2 = fitz_setup(ctx, ['b', 'r'], igm, 'host', cp, zc=(0.1, 0.15, 0.2))
        t2.template_type, t2.full_type, t2.sub_type = 'QSO', 'QSO', ''
        ts.append(t2)
    rr = ctx.rr
    fits = Fits(ctx, True)
    rr.patch('zscan', 'calc_zchi2_batch', fits)
    rr.patch('fitz', 'minfit', lambda x, y: (x[1], ctx.const(1), y[1], 0))
    tg.meta = {}
    targets = Z.DistT([tg])
    dwave = {s.wavehash: s.wave for s in tg.spectra}
    kw = {}
    if scanfile:
        sc = {tg.id: {q.full_type: dict(redshifts=q.redshifts, zchi2=ctx.arr([3.0, 1.0, 2.0]), penalty=ctx.arr([0.0, 0.0, 0.0]), zcoeff=None) for q in ts}}
        import copy
        rr.patch('zfind', 'read_zscan_redrock', lambda f: copy.deepcopy(sc))
        kw['chi2_scan'] = 'x.h5'
        # the first use of the device in this process
        vars(ctx.rr.zscan).pop('cp', None)
    if not scanfile:
        for q in ts:
            q.solve_matrices_algorithm = getattr(q, 'solve_matrices_algorithm', 'PCA')
    with_ = lambda **k: [rr.templates.ReDistTemplate(q, dwave, **k) for q in ts]
    from .c17_rrdesi import quiet
    sc, zc = quiet(lambda: rr.zfind.zfind(targets, with_(), nminima=1, **kw))
    fits.replay = True
    sg, zg = quiet(lambda: rr.zfind.zfind(targets, with_(use_gpu=True, gpu_mode=True), nminima=1, use_gpu=True, **kw))
    ctx.check(fits.k == len(fits.log), 'as many fits as on the CPU')
    cmp_tables(ctx, zg, zc)
    ctx.check(sorted(sg) == sorted(sc), 'scans of the same targets')
    for i in sc:
        ctx.check(sorted(k for k in sg[i]) == sorted(k for k in sc[i]), 'scans of the same templates')
        for ft in sc[i]:
            if isinstance(sc[i][ft], dict):
                for k in ('redshifts', 'zchi2', 'penalty'):
                    same(ctx, sg[i][ft][k], sc[i][ft][k], 'stored scan')
    ctx.cover('done')


def h_main(ctx, size, ndev, mp=1):
    """which process uses a device, and that these get all the targets"""
    import threading
    from . import c16_reader as F16
    from . import c17_rrdesi as R
    cp = fakecupy.install(ctx, ndev)
    ranks = {}
    cp.cuda.runtime.deviceGetPCIBusId = lambda n: f'{ranks.setdefault(threading.get_ident(), len(ranks)) % ndev:02d}'
    run = R.Run(ctx, [[1, 0], [2], [0]])
    f = F16.make(ctx, 'A', True, [9, 4, 7], 'b', 2, sym=False)
    ids = f['ids']
    name = run.env.write('f.fits', f)
    o = run.env.dir + 'z.fits'
    k = ctx.choice('max', 4)
    opts = ['-i', name, '-o', o, '--gpu'] + ([] if k == 0 else ['--max-gpuprocs', str(k)]) + ([] if mp == 1 else ['--mp', str(mp)])
    mine = {}
    real = run.zfind

    def zfind(b):
        t = b.arguments['targets']
        mine[0 if t.comm is None else t.comm.rank] = [int(x) for x in t.local_target_ids()]
        return real(b)
    run.zfind = zfind
    run.go(opts, size)
    procs = max(size, 1) if k == 0 else min(max(size, 1), k)
    ngpu = min(procs, k if k else ndev)
    ctx.check(len(run.calls) == procs and len(run.tcalls) == procs, 'every remaining process takes part')
    for rank, a in run.calls:
        ctx.check(bool(a['use_gpu']) == (rank < ngpu), 'the first processes use the devices')
        ctx.check(bool(a['use_gpu']) or not mine[rank], 'only processes with a device have targets')
        ctx.check(size or a['mp_procs'] == 1, 'no multiprocessing with a device')
    for a in run.tcalls:
        rank = 0 if a['comm'] is None else a['comm'].rank
        ctx.check(bool(a['use_gpu']) == (rank < ngpu) and bool(a['gpu_mode']) and bool(a['redistribute']), 'templates on the devices')
    ctx.check(sorted(sum(mine.values(), [])) == sorted(ids), 'every target on exactly one process')
    hd, hdr = run.env.read(o)
    ctx.check([int(x) for x in hd['REDSHIFTS']['TARGETID']] == ids, 'all targets in the catalog')
    ctx.cover('done')


def archetype(ctx, narch, lo=500.0, step=1500.0, n=9):
    """a real Archetype object on a made-up file"""
    from . import c19_archetypes as A
    d, fs = A.mount(ctx)
    fl = [[float((5 * i + 3 * a * i + 7 * a + (i * i) % 7) % 11 + 1) for i in range(n)] for a in range(narch)]
    f = A.write_arch(ctx, d, fs, 'GALAXY', fl, ['ELG', 'LRG', 'Q', 'S'][:narch], lo, step, False)
    return lambda: ctx.rr.archetypes.All_archetypes(lstfilename=[f]).archetypes['GALAXY']


def h_arch_rebin(ctx, narch, zlo, zhi, sub):
    mk = archetype(ctx, narch)
    cp = fakecupy.install(ctx)
    a = mk()
    z = ctx.real('z', zlo, zhi)
    grids = {'b': ctx.arr([3600.0, 3700.0, 3900.0]), 'r': ctx.arr([6000.0, 6100.0])}
    reb = ctx.rr.rebin
    ed = {k: reb.centers2edges(v) for k, v in grids.items()}
    dd = {k: (cp.asarray(v), v[0], v[-1]) for k, v in ed.items()}
    ix = np.array([1, 0]) if sub else None
    ce, c = attempt(lambda: a.rebin_template_batch(z, grids, indx=ix))
    for how in ('edges', 'centers', 'plain'):
        kw = dict(dedges=dd) if how == 'edges' else dict(dedges=ed) if how == 'plain' else {}
        ge, g = attempt(lambda: a.rebin_template_batch(z, grids, indx=ix, use_gpu=True, **kw))
        ctx.check(ce == ge, 'archetypes outside the spectral range are refused alike', f'{ce} {ge}')
        if ce is None and ge is None:
            for k in grids:
                same(ctx, g[k], c[k], 'rebinned archetypes')
    ctx.cover('done' if ce is None else 'refused')


def h_arch_best(ctx, bands, narch, nleg, percam, near, prior, solver='real', igm=None, trans='none', z=0.3):
    """the archetype fit; the chi2 of each archetype is that of the real batched fit with a given solver"""
    mk = archetype(ctx, narch)
    cp = fakecupy.install(ctx)
    a = mk()
    a.igm_model = igm
    rr = ctx.rr
    igm_cp(ctx, cp)
    sp = [lib.spectrum(ctx, f'{b}{i}', WAVES[b], 'tri', band=b, ivar=ctx.arr([float(1 + (i + j) % 3) for j in range(len(WAVES[b]))]),
                       flux=None if solver == 'real' else ctx.arr([float(1 + (3 * i + 5 * j) % 7) for j in range(len(WAVES[b]))]))
          for i, b in enumerate(bands)]
    tg = rr.targets.Target(9, sp)
    tg.legendre(nleg)
    w, f, wf = rr.zscan.spectral_data(sp)
    dwave = {s.wavehash: s.wave for s in sp}
    nn = near or 1
    pr = None
    if prior:
        n = nn + nleg * (len(bands) if percam else 1)
        pr = ctx.zeros((n, n))
        for k in range(nn, n):
            pr[k, k] = ctx.const(0.5 + k)
    if solver == 'fit':
        fits = Fits(ctx)
        rr.patch('zscan', 'calc_zchi2_batch', fits)
    else:
        fits = None
        sol = {}

        def lsq(A, b, bounds=None, method=None, **k):
            # the exact unconstrained solution
            x = ctx.np.linalg.solve(A, b.reshape((-1, 1))).reshape(-1) if ctx.symbolic else np.linalg.solve(A, b)
            return types.SimpleNamespace(x=x)
        ctx.hook_solver('lsq_linear', lsq)

    def tr():
        if trans == 'none':
            return {}
        return dict(trans={k: (None if trans == 'null' else ctx.arr([[0.5 + 0.1 * i for i in range(len(v))]])) for k, v in dwave.items()})
    kw = dict(prior=pr)
    ce, c = attempt(lambda: a.get_best_archetype(tg, w, f, wf, dwave, ctx.const(z), percam, near, **kw, **tr()))
    if fits:
        fits.replay = True
    ge, g = attempt(lambda: a.get_best_archetype(tg, w, f, wf, dwave, ctx.const(z), percam, near, use_gpu=True, **kw, **tr()))
    ctx.check(ce == ge, 'the same inputs are refused', f'{ce} {ge}')
    if ce is None:
        ctx.eq(g[0], c[0], 'best chi2')
        same(ctx, g[1], c[1], 'coefficients of the best archetype')
        ctx.check(str(g[2]) == str(c[2]), 'best archetype', f'{g[2]} {c[2]}')
        ctx.cover('done')


def configs(tier):
    th = tier == 'thorough'
    c = []

    def add(name, fn, bounds, cover=('done',), validate=3, weight=1, **params):
        c.append(dict(name=name, fn=fn, params=params, bounds=bounds, cover=list(cover), validate=validate, weight=weight))
    X, Es = [1, 2, 4, 7], [2.5, 3, 4.5]
    add('rebin_z', h_rebin, '2 symbolic redshifts, 4 samples, 2 bins, 2 bases, symbolic flux', xs=X, es=Es, zs=None, nbasis=2, zform='arr', cover=['done', 'refused'])
    add('rebin_dev', h_rebin, 'as above, all arrays on the device', xs=X, es=Es, zs=None, nbasis=2, zform='arr', loc='dev', cover=['done', 'refused'])
    add('rebin_scalar', h_rebin, 'one symbolic scalar redshift, 2 bases', xs=X, es=Es, zs=None, nbasis=2, zform='scalar', cover=['done', 'refused'])
    add('rebin_1d', h_rebin, '1-d flux, scalar redshift', xs=X, es=Es, zs=None, nbasis=0, zform='scalar', cover=['done', 'refused'])
    add('rebin_none', h_rebin, '1-d flux, no redshift, symbolic edges up to both ends of the input range', xs=X, es=[1.5, 3, 6.5], zs=[0.0], nbasis=0, zform='none', off=0.5)
    add('rebin_1basis', h_rebin, '1 basis, 2 redshifts, symbolic edges around the samples', xs=[1, 2, 3, 5], es=[2, 3, 5], zs=[0.0, 0.25], nbasis=1, zform='arr', off=0.5, cover=['done', 'refused'])
    add('rebin_ties', h_rebin, 'edges at samples and at both ends, 3 bins, 2 bases', xs=X, es=[1, 2, 4, 7], zs=[0.0], nbasis=2, zform='arr')
    add('rebin_wide', h_rebin, 'many bins and redshifts: more than one thread block', xs=list(range(1, 14)), es=[5 + 0.05 * i for i in range(101)], zs=[0.0, 0.5, 0.25], nbasis=2, zform='arr')
    add('centers', h_rebin_centers, '3 bin centers, 1 symbolic redshift', n=3)
    for e in (False, True):
        for loc in ('host', 'dev'):
            add(f'template_{"edges" if e else "dwave"}_{loc}', h_template, '2 grids, 2 bases, 1 symbolic redshift', edges=e, loc=loc, cover=['done', 'refused'])
    add('dot33_small', h_dot33sym, '2 redshifts, 3 rows (fewer than threads), 2 bases, symbolic templates', nz=2, nrows=3, ncols=2, full=True)
    add('dot33_fast', h_dot33sym, '1 redshift, 5 rows, 64 threads per element', nz=1, nrows=5, ncols=2, full=False)
    add('dot33_lin', h_dot33, '2 redshifts, 11 rows, 3 bases', nz=2, nrows=11, ncols=3, transpose=True, full=True)
    add('dot33_lin64', h_dot33, '1 redshift, 131 rows over 64 threads, 2 bases', nz=1, nrows=131, ncols=2, transpose=True, full=False)
    add('dot33_blocks', h_dot33, '20 redshifts, 5 rows, 3 bases: more than one thread block', nz=20, nrows=5, ncols=3, transpose=True, full=True)
    add('dot33_plain', h_dot33, 'a already transposed, 6 rows, 2 bases', nz=2, nrows=6, ncols=2, transpose=False, full=True)
    add('dot33_many', h_dot33, '513 redshifts, 2 rows, 1 basis (above the 64-thread limit)', nz=513, nrows=2, ncols=1, transpose=True, full=False, validate=1)
    add('dot32', h_dot32, '3 redshifts, 5 rows, 2 bases', nz=3, nrows=5, nb=2)
    add('dot32_blocks', h_dot32, '150 redshifts, 4 rows, 1 basis: more than one thread block', nz=150, nrows=4, nb=1, validate=1)
    B = dict(bands=['b', 'r'], nz=2, nb=2)
    add('pca', h_batch, '2 spectra (5 pixels), 2 redshifts, 2 bases, symbolic flux', method='PCA', **B)
    add('pca_sym', h_batch, '1 spectrum (2 pixels), 1 basis, symbolic template', method='PCA', bands=['r'], nz=1, nb=1, tsym=True, cover=['done'])
    add('pca_fast', h_batch, '3 spectra (9 pixels), reduced precision mode', method='PCA', bands=['b', 'r', 'z'], nz=2, nb=2, full=False)
    add('pca_masked', h_batch, 'some pixels masked, low memory mode', method='PCA', wmode='part', lowmem=True, **B)
    add('pca_zero', h_batch, 'all pixels masked', method='PCA', wmode='zero', **B)
    add('pca_prior', h_batch, 'with a prior matrix', method='PCA', prior=True, **B)
    add('pca_samegrid', h_batch, 'three spectra, two bands', method='PCA', bands=['r', 'b', 'z'], nz=1, nb=2)
    add('nmf', h_batch, 'NMF: any solver answer', method='NMF', **B)
    add('nnls_prior', h_batch, 'NNLS with a prior', method='NNLS', prior=True, **B)
    add('bvls', h_batch, 'BVLS with bounds', method='BVLS', bnds=True, prior=True, **B)
    add('bvls_free', h_batch, 'BVLS without bounds', method='BVLS', **B)
    add('badmethod', h_badmethod, 'unknown method')
    add('scan', h_scan, '3 targets, 2 redshifts, 2 bases, any one of them masked', ntarg=3, nz=2, nb=2, oii=False)
    add('scan_oii', h_scan, '2 targets with the [OII] penalty', ntarg=2, nz=2, nb=2, oii=True)
    for m in ('Calura12', 'Kamble20'):
        add(f'igm_{m}_z', h_igm, '2 symbolic redshifts, 1 symbolic wavelength', model=m, nz=2, nw=1, zr=(2.0, 2.5), lr=(3300, 4200))
        add(f'igm_{m}_w', h_igm, '1 symbolic redshift, 2 symbolic wavelengths', model=m, nz=1, nw=2, zr=(2.0, 2.5), lr=(3300, 4200))
    add('igm_none', h_igm, 'None when nothing is absorbed', model='Calura12', nz=1, nw=2, zr=(0.5, 2.5), lr=(3300, 4200), always=False, cover=['done', 'none'])
    add('igm_nomodel', h_igm, 'no model', model='None', nz=1, nw=2, zr=(0.5, 3.0), lr=(3000, 5000))
    add('igm_nomodel_n', h_igm, 'no model', model=None, nz=1, nw=2, zr=(0.5, 3.0), lr=(3000, 5000), always=False, cover=['none'])
    for k, (zr, lr) in enumerate([((0.1, 1.1), (900, 2500)), ((1.3, 2.6), (1800, 4300)), ((4.8, 6.0), (1800, 7500))]):
        add(f'igm_inoue{k}', h_igm, '1 symbolic redshift, 1 symbolic wavelength, first 2 lines of the tables', model='Inoue14', nz=1, nw=1, zr=zr, lr=lr)
    add('igm_inoue_mix', h_igm, '2 symbolic redshifts, one line of sight possibly redward of Lyman alpha', model='Inoue14', nz=2, nw=1, zr=(0.5, 3.0), lr=(3000, 3000), fixl=[3000.0, 4000.0])
    for igm in (None, 'Calura12', 'Inoue14'):
        add(f'dist_{igm}', h_dist, '3 redshifts, 2 grids, 2 bases, symbolic flux', igm=igm, mode='gpu')
    add('dist_redist', h_dist, 'ReDistTemplate', igm='Calura12', mode='redist')
    add('dist_cpuproc', h_dist, 'process without GPU in GPU mode', igm=None, mode='cpu-proc')
    add('coadd_data', h_coadd_data, 'exposures b b z, any flux and positive ivar, coadded before or after the first request', order=['b', 'b', 'z'])
    add('caches', h_caches, 'any 3 requests of degree 0-2 on host or device', ops=3, cover=['gpu', 'cpu'])
    if th:
        add('caches4', h_caches, 'any 4 requests', ops=4, cover=['gpu', 'cpu'])
    for loc in ('host', 'dev'):
        add(f'fitz_{loc}', h_fitz, 'all fit inputs equal; any chi2 and coefficients', bands=['b', 'r'], igm=None, loc=loc)
    add('fitz_igm', h_fitz, 'with IGM absorption', bands=['b'], igm='Calura12', loc='dev')
    add('fitz_oii', h_fitz, 'with the [OII] penalty', bands=['r'], igm=None, loc='dev', oii=True)
    add('fitz_parab', h_fitz, 'real parabola fit', bands=['r'], igm=None, loc='dev', parab=False)
    add('fitz_zsym', h_fitz, 'any fitted redshift', bands=['r'], igm=None, loc='dev', symz=True)
    add('zfind', h_zfind, '1 target, 1 template, 3 redshifts, any chi2 and coefficients', igm=None)
    add('zfind_two', h_zfind, '1 target, 2 templates, scan read from a file', igm='Calura12', ntmpl=2, scanfile=True)
    for size, ndev in ((0, 1), (2, 1), (3, 2), (3, 3)):
        add(f'main{size}_{ndev}', h_main, f'{size or "no"} MPI processes, {ndev} devices, --max-gpuprocs absent or 1-3, any process order', size=size, ndev=ndev, mp=1 if size else 3)
    for i, (zl, zh) in enumerate([(0.0, 1.0), (3.0, 8.0)]):
        add(f'arch_rebin{i}', h_arch_rebin, f'3 archetypes, symbolic redshift in [{zl}, {zh}]', narch=3, zlo=zl, zhi=zh, sub=False, cover=[['done'], ['done', 'refused']][i])
    add('arch_rebin_sub', h_arch_rebin, '2 of 3 archetypes', narch=3, zlo=0.0, zhi=1.0, sub=True)
    for nleg in (0, 1, 2):
        for pc in (False, True):
            add(f'arch_best_{nleg}{"c" if pc else ""}', h_arch_best, f'3 archetypes, {nleg} Legendre terms, any chi2', bands=['b', 'r'], narch=3, nleg=nleg, percam=pc,
                near=None, prior=False, solver='fit')
            if nleg < 2:
                add(f'arch_real_{nleg}{"c" if pc else ""}', h_arch_best, f'2 archetypes, {nleg} Legendre terms, exact solver, symbolic flux', bands=['b', 'r'], narch=2,
                    nleg=nleg, percam=pc, near=None, prior=False, solver='real')
    add('arch_near', h_arch_best, '2 nearest of 3 archetypes, any chi2', bands=['b', 'r'], narch=3, nleg=1, percam=False, near=2, prior=False, solver='fit')
    add('arch_near_c', h_arch_best, '2 nearest of 3 archetypes per camera with a prior', bands=['b', 'r'], narch=3, nleg=1, percam=True, near=2, prior=True, solver='fit')
    add('arch_prior_c', h_arch_best, 'per camera with a prior', bands=['b', 'r'], narch=2, nleg=2, percam=True, near=None, prior=True, solver='fit')
    add('arch_igm', h_arch_best, 'IGM absorption computed here', bands=['b'], narch=2, nleg=1, percam=False, near=None, prior=False, solver='fit', igm='Calura12', z=2.5)
    add('arch_trans', h_arch_best, 'IGM absorption passed in', bands=['b', 'r'], narch=2, nleg=1, percam=False, near=None, prior=False, solver='fit', trans='arr')
    add('arch_transnull', h_arch_best, 'no absorption passed in', bands=['b', 'r'], narch=2, nleg=1, percam=True, near=None, prior=False, solver='fit', trans='null')
    return c
