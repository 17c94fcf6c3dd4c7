"""C22: evaluating a template gives the spectrum the fit compared with the data."""
import types

import numpy as np

from .. import lib
from . import c19_archetypes as c19
from .c01_rebin import binavg
from .c10_disttemplate import oracle_edges

PROPERTY = 'C22'
ASSUMPTIONS = ['IGM transmission: an arbitrary function of redshift, wavelength and model (C13 covers its values)',
               'in the chi2 harnesses template fluxes, resolution and weights are concrete, spectra symbolic; solvers exact or arbitrary in bounds']
GRIDS = dict(b=[3.5, 4.0, 4.5], r=[6.0, 6.5, 7.0, 7.5])
W = [2, 3, 4, 6, 9, 12]


class Igm:
    """T(z, wavelength, model): arbitrary; none redward of a limit"""

    def __init__(self, ctx, mode):
        self.ctx, self.mode, self.t = ctx, mode, {}
        for m in ('templates', 'archetypes', 'fitz'):
            ctx.rr.load('redrock.' + m)
            ctx.rr.patch(m, 'transmission_Lyman', self)

    def T(self, z, lam, model):
        k = (round(float(z), 6), round(float(lam), 6), model)
        if model in (None, 'None') or self.mode == 'none' or lam > 5 and 'blue' in self.mode:
            return 1
        if k not in self.t:
            self.t[k] = self.ctx.real('T%g_%g_%s' % k, 0, 1) if 'const' not in self.mode else \
                self.ctx.const(round(0.25 + 0.125 * ((int(4 * k[0]) + int(2 * k[1]) + len(str(model))) % 6), 3))
        return self.t[k]

    def __call__(self, zObj, lObs, use_gpu=False, model='Inoue14', always_return_array=True):
        ctx = self.ctx
        lam = [float(x) for x in lObs]
        many = hasattr(zObj, '__len__')
        zl = [float(z) for z in zObj] if many else [float(zObj)]
        v = [[self.T(z, x, model) for x in lam] for z in zl]
        if not always_return_array and all(x is 1 or isinstance(x, int) for r in v for x in r):
            return None
        v = [[ctx.const(1) if isinstance(x, int) else x for x in r] if ctx.symbolic else [float(x) for x in r] for r in v]
        return ctx.arr(v) if many else ctx.arr(v[0])


def make(ctx, nb, ttype='GALAXY', sub='', method='PCA', igm='Inoue14', flux=None, zs=(0.25,), name='f'):
    w = ctx.arr([float(x) for x in W])
    if flux is None:
        flux = ctx.reals(name, (nb, len(W)))
    return ctx.rr.templates.Template(spectype=ttype, redshifts=ctx.arr(list(zs)), wave=w, flux=flux, subtype=sub, method=method, igm_model=igm)


def oracle(ctx, igm, t, coeff, wave, z, R=None):
    ee = [ctx.const(e) for e in oracle_edges(wave)]
    n = len(wave)
    z = ctx.const(z)
    out = []
    for i in range(n):
        v = sum(coeff[b] * binavg(ctx, t.wave * (1 + z), t.flux[b], ee[i], ee[i + 1]) for b in range(t.nbasis))
        out.append(v * igm.T(float(z), wave[i], t.igm_model))
    if R is not None:
        out = lib.matvec(lib.dense(R, n), out)
    return out


def h_eval(ctx, nb, extra, rmode, trans, igm='Inoue14', ttype='GALAXY', z=0.25, grid='b'):
    """Template.eval = R . (IGM x bin averages of templates . coefficients); coefficients beyond the basis ignored"""
    g = Igm(ctx, trans)
    t = make(ctx, nb, ttype, igm=igm)
    c = ctx.reals('c', nb + extra)
    wave = GRIDS[grid]
    n = len(wave)
    R = lib.rdata(n, 0, rmode) if rmode else None
    c0, f0 = c.copy(), t.flux.copy()
    m = t.eval(c, ctx.arr(wave), z, R=lib.dia(ctx, R[0], R[1], n).tocsr() if R else None)
    ctx.check(m.shape == (n,), 'one value per wavelength')
    ctx.eq([m[i] for i in range(n)], oracle(ctx, g, t, [c[i] for i in range(nb)], wave, z, R), 'model value')
    ctx.eq(c, c0, 'coefficients unchanged')
    ctx.eq(t.flux, f0, 'template unchanged')
    ctx.cover('done')


def target(ctx, bands, tid=7, sym=True, rmode='tri', mask=None):
    sp = []
    seen = {}
    for i, b in enumerate(bands):
        k = seen[b] = seen.get(b, -1) + 1
        w = GRIDS[b]
        n = len(w)
        iv = [[1.0, 2.0, 0.5][(i + j + tid) % 3] for j in range(n)]
        if mask == 'all':
            iv = [0.0] * n
        if mask == 'one' and i == 0:
            iv[1] = 0.0
        fx = ctx.arr([float(5 + (3 * i + 5 * j + tid) % 7) for j in range(n)])
        if sym:
            for j in range(n):
                if (i, j) == (0, 1) if sym == 'one' else (i + j) % 2 == 0 or n < 4:
                    fx[j] = ctx.real(f'flux{tid}_{i}_{j}', -20, 20)
        sp.append(lib.spectrum(ctx, f'{b}{k}', w, rmode, band=b, ivar=ctx.arr(iv), flux=fx))
    return ctx.rr.targets.Target(tid, sp)


class Dist:
    def __init__(self, ctx, tgs):
        self.base = ctx.rr.targets.DistTargets
        self.t, self.comm = tgs, None
        self.all_target_ids = [t.id for t in tgs]
        grids = {}
        for t in tgs:
            for s in t.spectra:
                grids.setdefault(s.wavehash, s.wave)
        self.g = grids

    def local(self):
        return self.t

    def local_target_ids(self):
        return self.all_target_ids

    def wavegrids(self):
        return self.g

    def eval_models(self, *a, **k):
        return self.base.eval_models(self, *a, **k)


def residual(spectra, model):
    t = 0
    for s in spectra:
        m = model[s.wavehash]
        for j in range(len(s.wave)):
            d = s.flux[j] - m[j]
            t = t + s.ivar[j] * d * d
    return t


FL = [[3.0, 1.0, 4.0, 1.5, 5.0, 2.0], [2.0, 7.0, 1.0, 8.0, 2.5, 3.0], [1.0, 4.0, 1.25, 4.0, 2.0, 9.0]]


def h_chi2(ctx, bands, types_, nb, trans, method='PCA', zs=(0.25, 0.5), mask=None, ntarget=1):
    """scan, then the model of every (target, template, redshift): its residual is the reported chi2"""
    igm = Igm(ctx, trans)
    ts = []
    for k, (ty, sub, im) in enumerate(types_):
        fl = ctx.arr([[float(x + k) for x in FL[(b + k) % 3]] for b in range(nb - k if nb > 1 else nb)])
        ts.append(make(ctx, nb, ty, sub, method, im, fl, zs=[z + 0.0625 * k for z in zs]))
    if method == 'NMF':
        def nn(A, b):
            x = ctx.reals('nn%d' % len(calls), len(b), 0, 10)
            calls.append(x)
            return x, 0.0
        calls = []
        ctx.hook_solver('nnls', nn)
    tgs = [target(ctx, bands, 7 + 4 * i, True, 'tri', mask if i == 0 else None) for i in range(ntarget)]
    dt = Dist(ctx, tgs)
    dts = [ctx.rr.templates.DistTemplate(t, dt.wavegrids()) for t in ts]
    res = ctx.rr.zscan.calc_zchi2_targets(dt, dts)
    tx = {(t.template_type, t.sub_type): t for t in ts}
    for tg in tgs:
        for t in ts:
            r = res[tg.id][t.full_type]
            for iz, z in enumerate(t.redshifts):
                best = dict(SPECTYPE=t.template_type, SUBTYPE=t.sub_type, COEFF=r['zcoeff'][iz], Z=z, FITMETHOD=method)
                model = tg.eval_model(best, tx)
                chi = r['zchi2'][iz] - 0
                if mask == 'all' and tg is tgs[0]:
                    for s in tg.spectra:
                        ctx.eq([model[s.wavehash][j] for j in range(len(s.wave))], [0] * len(s.wave), 'masked target: zero model')
                    ctx.cover('masked')
                    continue
                ctx.eq(chi, residual(tg.spectra, model), 'residual of the model is the chi2 of the scan')
                ctx.cover('chi2')


def h_refine(ctx, bands, nb, trans, ttype='GALAXY', igm='Inoue14', npts=3):
    """the refined fit: its fine scan is the least-squares chi2 of the model at each redshift, and its coefficients
    are the least-squares ones for the model at the reported redshift"""
    g = Igm(ctx, trans)
    zs = [0.25, 0.375, 0.5]
    t = make(ctx, nb, ttype, '', igm=igm, flux=ctx.arr([[float(x) for x in FL[b]] for b in range(nb)]), zs=zs)
    tg = target(ctx, bands, 7, 'one', 'tri')
    pick = ctx.choice('pick', 2)

    def minfit(x, y):
        return (x[1] + (x[2] - x[1]) / 2 if pick else x[1], ctx.const(1), y[1], 0)
    ctx.rr.patch('fitz', 'minfit', minfit)
    res = ctx.rr.fitz.fitz(ctx.arr([3.0, 1.0, 2.0]), t.redshifts, tg, t, nminima=1, zminfit_npoints=npts)
    tx = {(t.template_type, t.sub_type): t}

    def unit(z):
        out = []
        for k in range(nb):
            c = ctx.zeros((nb,))
            c[k] = ctx.const(1)
            m = tg.eval_model(dict(SPECTYPE=ttype, SUBTYPE='', COEFF=c, Z=z, FITMETHOD='PCA'), tx)
            out.append([m[s.wavehash][j] for s in tg.spectra for j in range(len(s.wave))])
        # spectra of one camera share the key of the model: only used with distinct cameras
        return out
    F = [s.flux[j] for s in tg.spectra for j in range(len(s.wave))]
    V = [s.ivar[j] for s in tg.spectra for j in range(len(s.wave))]
    ctx.check(res['z'].shape[0] == 1, 'one candidate')
    if nb == 1:
        for i in range(npts):
            m = unit(res['zz'][0, i])[0]
            wf = [v * f for v, f in zip(V, F)]
            num, den = lib.dot(wf, m), lib.dot([v * x for v, x in zip(V, m)], m)
            ctx.eq(res['zzchi2'][0, i], lib.dot(wf, F) - num * num / den, 'fine scan is the best chi2 of the model there')
    ms = unit(res['z'][0, 0])
    c = [res['coeff'][0, k] for k in range(nb)]
    r = [V[p] * (F[p] - sum(c[k] * ms[k][p] for k in range(nb))) for p in range(len(F))]
    for k in range(nb):
        ctx.eq(lib.dot(r, ms[k]), 0, 'coefficients are the best for the model at the reported redshift')
    ctx.cover('done')


def table(ctx, cols):
    if ctx.symbolic:
        from ..fakes import Table
    else:
        from astropy.table import Table
    return Table(cols)


def h_rows(ctx, order, ntarget, nrows=1):
    """eval_models: each target gets the model of its own first row"""
    igm = Igm(ctx, 'free')
    ts = [make(ctx, 2, 'GALAXY', '', flux=ctx.arr([FL[0], FL[1]])), make(ctx, 1, 'STAR', 'F', igm='None', flux=ctx.arr([FL[2]]))]
    tx = {(t.template_type, t.sub_type): t for t in ts}
    ids = [39627788000000000 + 7, -3, 39627788000000000 + 6][:ntarget]
    tgs = [target(ctx, ('b', 'r') if i != 1 else ('r',), ids[i], False) for i in range(ntarget)]
    dt = Dist(ctx, tgs)
    rows = [(ids[k], q) for k in order for q in range(nrows)]
    zz = ctx.arr([0.25 if (i + q) % 2 else 0.5 for i, q in rows])
    co = ctx.reals('c', (len(rows), 3))
    for i in range(len(rows)):
        ctx.require(co[i, 0] > 0)
    kind = [(int(i) + q) % 3 == 0 for i, q in rows]
    tab = table(ctx, dict(TARGETID=np.array([r[0] for r in rows]), Z=zz, COEFF=co,
                          SPECTYPE=np.array(['STAR' if k else 'GALAXY' for k in kind]), SUBTYPE=np.array(['F' if k else '' for k in kind]),
                          FITMETHOD=np.array(['PCA'] * len(rows))))
    out = dt.eval_models(tab, tx)
    ctx.check(len(out) == ntarget, 'one model per local target')
    for tg, m in zip(tgs, out):
        i = [r[0] for r in rows].index(tg.id)
        t = ts[1 if kind[i] else 0]
        ctx.check(sorted(m) == sorted(s.wavehash for s in tg.spectra), 'one model per wavelength grid')
        ctx.check(tg.model is m, 'kept with the target')
        for s in tg.spectra:
            w = GRIDS[s.band]
            R = lib.rdata(len(w), 0, 'tri')
            ctx.eq([m[s.wavehash][j] for j in range(len(w))],
                   oracle(ctx, igm, t, [co[i, b] for b in range(t.nbasis)], w, float(zz[i]), R), 'model of the first row of that target')
    ctx.cover('done')


def h_table(ctx, form, rform, n=2, sym='coeff'):
    """templates.eval_model over a table, wavelength arrays or dictionaries, with or without resolution"""
    igm = Igm(ctx, 'free')
    ts = [make(ctx, 2, 'GALAXY', '', flux=ctx.arr([FL[0], FL[1]])), make(ctx, 1, 'STAR', 'F', igm='None', flux=ctx.arr([FL[2]])),
          make(ctx, 3, 'QSO', '', flux=ctx.arr(FL), igm='Calura12')]
    tx = {(t.template_type, t.sub_type): t for t in ts}
    kind = [(i + ctx.choice('kind%d' % i, 2)) % 3 for i in range(n)]
    zz = ctx.arr([0.25 if i % 2 else 0.5 for i in range(n)])
    co = ctx.reals('c', (n, 3))
    tab = table(ctx, dict(Z=zz, COEFF=co, SPECTYPE=np.array([ts[k].template_type for k in kind]), SUBTYPE=np.array([ts[k].sub_type for k in kind])))
    waves = dict(b=ctx.arr(GRIDS['b']), r=ctx.arr(GRIDS['r']))
    modes = ['tri', 'id', 'tri']

    def rlist(b):
        m = len(GRIDS[b])
        return [lib.dia(ctx, *lib.rdata(m, 0, modes[i]), m).tocsr() for i in range(n)]
    if rform == 'none':
        R = None
    elif form == 'dict':
        R = {b: rlist(b) for b in waves}
    else:
        R = rlist('b')
    if rform in ('badkeys', 'list'):
        bad = [{'b': rlist('b')}, dict(b=rlist('b'), z=rlist('r'))][ctx.choice('bad', 2)] if rform == 'badkeys' else rlist('b')
        try:
            ctx.rr.templates.eval_model(tab, waves, R=bad, templates=tx)
            refused = False
        except ValueError:
            refused = True
        ctx.check(refused, 'resolution that does not match the cameras is refused')
        ctx.cover('refused')
        return
    out = ctx.rr.templates.eval_model(tab, waves if form == 'dict' else waves['b'], R=R, templates=tx)
    if form == 'dict':
        ctx.check(sorted(out) == ['b', 'r'], 'one array per camera')
    else:
        out = dict(b=out)
    for b in out:
        m = len(GRIDS[b])
        ctx.check(out[b].shape == (n, m), 'shape (nspec, nwave)')
        ctx.check(np.dtype(out[b].dtype) in (np.dtype('f4'), np.dtype('f8')), 'at least single precision')
        for i in range(n):
            t = ts[kind[i]]
            Rd = None if rform == 'none' else lib.rdata(m, 0, modes[i])
            ctx.eq([out[b][i, j] for j in range(m)], oracle(ctx, igm, t, [co[i, q] for q in range(t.nbasis)], GRIDS[b], float(zz[i]), Rd),
                   'model of that row', tol=1e-3 if not ctx.symbolic else None)
    ctx.cover('done')


class Ax:
    def __init__(self):
        self.lines = []

    def clear(self):
        self.lines = []

    def plot(self, x, y, fmt='', **k):
        self.lines.append((x, y, fmt))

    def get_xlim(self):
        return (0, 1)

    get_ylim = get_xlim

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


def pyplot(ctx):
    from ..loader import NS
    axes = []

    class Canvas:
        def mpl_connect(self, ev, fn):
            return 0

        def draw(self):
            pass

    class Fig:
        canvas = Canvas()

        def add_subplot(self, *a):
            axes.append(Ax())
            return axes[-1]
    if not ctx.symbolic:
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as mp
        import scipy.signal
        for mod, k, v in [(mp, 'figure', lambda *a, **k: Fig()), (mp, 'ion', lambda: None), (mp, 'show', lambda **k: None)]:
            ctx.onclose(lambda mod=mod, k=k, old=getattr(mod, k): setattr(mod, k, old))
            setattr(mod, k, v)
        return axes
    plt = NS('matplotlib.pyplot', None, figure=lambda *a, **k: Fig(), rcParams={}, ion=lambda: None, show=lambda **k: None)
    ctx.shim('matplotlib', NS('matplotlib', None, pyplot=plt))
    ctx.shim('matplotlib.pyplot', plt)
    sig = NS('scipy.signal', None, medfilt=lambda x, n: x)
    ctx.shim('scipy.signal', sig)
    from .. import snp
    snp.NP.percentile = lambda a, p: ctx.const(0)
    ctx.onclose(lambda: delattr(snp.NP, 'percentile'))
    return axes


def h_plot(ctx, keys, nz=(2, 1, 2)):
    """rrplot shows, for the target and fit selected by the keys, the data and the model of that fit"""
    axes = pyplot(ctx)
    igm = Igm(ctx, 'const')
    ts = [make(ctx, 2, 'GALAXY', '', flux=ctx.arr([FL[0], FL[1]])), make(ctx, 1, 'STAR', 'F', igm='None', flux=ctx.arr([FL[2]]))]
    ids = [39627788000000000 + 9, -3, 39627788000000000 + 7]
    tgs = [target(ctx, ('b', 'r') if i != 1 else ('r',), ids[i], False) for i in range(3)]
    fits = [(t, q) for i, t in enumerate(ids) for q in range(nz[i])]
    kind = [(i + q) % 3 == 0 for i, q in fits]
    zz = [[0.5, 0.25, 0.0][(i + q) % 3] for i, q in fits]
    co = ctx.reals('c', (len(fits), 3))
    order = sorted(range(len(fits)), key=lambda r: (fits[r][0], fits[r][1]))
    tab = table(ctx, {k: (ctx.arr([v[r] for r in order]) if k in ('z', 'chi2') else np.array([v[r] for r in order])) for k, v in dict(
        targetid=[f[0] for f in fits], znum=[f[1] for f in fits], z=zz, chi2=[float(r) for r in range(len(fits))], zwarn=[0] * len(fits),
        spectype=['STAR' if k else 'GALAXY' for k in kind], subtype=['F' if k else '' for k in kind]).items()})
    tab['coeff'] = ctx.arr([[co[r, b] for b in range(3)] for r in order])
    scan = {t: {'GALAXY': dict(redshifts=ctx.arr([0.25, 0.5]), zchi2=ctx.arr([3.0, 4.0]), penalty=ctx.arr([0.0, 1.0]))} for t in ids}
    ctx.rr.load('redrock.plotspec')
    extra = target(ctx, ('r',), 11, False)             # has no fit: not shown
    p = ctx.rr.load('redrock.plotspec').PlotSpec([tgs[0], extra] + tgs[1:], {t.full_type: t for t in ts}, scan, tab, archetypes=False)
    it, zn = 0, 0
    for step in range(keys + 1):
        if step:
            k = ['right', 'left', 'down', 'up'][ctx.choice('key%d' % step, 4)]
            p._onkeypress(types.SimpleNamespace(key=k))
            n = nz[it]
            if k == 'right':
                zn = (zn + 1) % n
            elif k == 'left':
                zn = (zn - 1) % n
            elif k == 'down' and it < 2:
                it, zn = it + 1, 0
            elif k == 'up' and it > 0:
                it, zn = it - 1, 0
        r = fits.index((ids[it], zn))
        t = ts[1 if kind[r] else 0]
        tg = tgs[it]
        ln = axes[1].lines
        ctx.check(len(ln) == 3 * len(tg.spectra), 'data, model and convolved model of every spectrum')
        for i, s in enumerate(tg.spectra):
            w = GRIDS[s.band]
            m = len(w)
            c = [co[r, b] for b in range(t.nbasis)]
            data, raw, model = [x[1] for x in ln[3 * i:3 * i + 3]]
            ctx.eq([data[j] for j in range(m)], [s.flux[j] for j in range(m)], 'the data of the selected target')
            ctx.eq([raw[j] for j in range(m)], oracle(ctx, igm, t, c, w, zz[r]), 'the model of the selected fit')
            ctx.eq([model[j] for j in range(m)], oracle(ctx, igm, t, c, w, zz[r], lib.rdata(m, 0, 'tri')), 'the model at the resolution of the data')
    ctx.cover('done')


def h_plotarch(ctx, bands, percam, nleg=2):
    """with archetypes: the archetype model with the Legendre terms of each camera; other types keep their template"""
    axes = pyplot(ctx)
    d, fs = c19.mount(ctx)
    name = c19.write_arch(ctx, d, fs, 'GALAXY', [[float(x) for x in FL[a]] for a in range(2)], ['ELG', 'LRG'], 2.0, 1.5, False)
    igm = Igm(ctx, 'const')
    arch = ctx.rr.archetypes.All_archetypes(lstfilename=[name])
    ts = [make(ctx, 2, 'GALAXY', '', flux=ctx.arr([FL[0], FL[1]])), make(ctx, 1, 'STAR', '', igm='None', flux=ctx.arr([FL[2]]))]
    tg = target(ctx, bands, 7, False)
    ub = list(dict.fromkeys(bands))
    co = ctx.reals('c', (2, 2))
    leg = ctx.reals('l', (2, len(ub), nleg) if percam else (2, nleg))
    tab = table(ctx, dict(targetid=np.array([7, 7]), znum=np.array([0, 1]), chi2=ctx.arr([1.0, 2.0]), zwarn=np.array([0, 0]),
                          spectype=np.array(['GALAXY', 'STAR']), subtype=np.array(['LRG_1;ELG_0', '']), ncoeff=np.array([2, 1]),
                          z=ctx.arr([0.25, 0.0]), coeff=co, legcoeff=leg))
    scan = {7: {'GALAXY': dict(redshifts=ctx.arr([0.25, 0.5]), zchi2=ctx.arr([3.0, 4.0]), penalty=ctx.arr([0.0, 1.0]))}}
    p = ctx.rr.load('redrock.plotspec').PlotSpec([tg], {t.full_type: t for t in ts}, scan, tab, archetypes=arch)
    a = arch.archetypes['GALAXY']
    for step in range(2):
        ln = axes[1].lines
        for i, s in enumerate(tg.spectra):
            w = GRIDS[s.band]
            m = len(w)
            if step:
                exp = oracle(ctx, igm, ts[1], [co[1, 0]], w, 0.0)
            else:
                ee = [ctx.const(e) for e in oracle_edges(w)]
                z = ctx.const(0.25)
                lc = leg[0, ub.index(s.band)] if percam else leg[0]
                exp = []
                for j in range(m):
                    v = sum(co[0, k] * binavg(ctx, a.wave * (1 + z), a.flux[q], ee[j], ee[j + 1]) for k, q in [(0, 1), (1, 0)])
                    x = 2 * (ctx.const(w[j]) - w[0]) / (ctx.const(w[-1]) - w[0]) - 1
                    exp.append(v * igm.T(0.25, w[j], a.igm_model) + sum(lc[q] * [1, x, (3 * x * x - 1) / 2][q] for q in range(nleg)))
            raw = ln[3 * i + 1][1]
            ctx.eq([raw[j] for j in range(m)], exp, 'the model of the selected fit')
            conv = ln[3 * i + 2][1]
            ctx.eq([conv[j] for j in range(m)], lib.matvec(lib.dense(lib.rdata(m, 0, 'tri'), m), exp), 'the model at the resolution of the data')
        p._onkeypress(types.SimpleNamespace(key='right'))
    ctx.cover('done')


def configs(tier):
    G, S, Q = ('GALAXY', '', 'Inoue14'), ('STAR', 'F', 'None'), ('QSO', '', 'Calura12')
    out = []

    def add(name, fn, cover=('done',), **kw):
        b = {k: v for k, v in kw.items() if k not in ('fn',)}
        out.append(dict(name=name, fn=fn, params=kw, bounds=', '.join(f'{k}={v}' for k, v in b.items()), cover=list(cover), validate=3, weight=2))
    for nb, extra, rm, tr in [(1, 0, None, 'free'), (2, 1, 'tri', 'free'), (3, 0, 'tri', 'blue'), (2, 0, None, 'none')]:
        add(f'eval/nb{nb}+{extra}/{rm}/{tr}', h_eval, nb=nb, extra=extra, rmode=rm, trans=tr)
    add('eval/star', h_eval, nb=1, extra=2, rmode='tri', trans='free', igm='None', ttype='STAR', z=0.001953125)
    add('eval/r/z0', h_eval, nb=2, extra=0, rmode='tri', trans='blue', ttype='QSO', igm='Kamble20', z=0.0, grid='r')
    add('chi2/G', h_chi2, ('chi2',), bands=('b',), types_=[G], nb=1, trans='const')
    add('chi2/G2/br', h_chi2, ('chi2',), bands=('b', 'r'), types_=[G], nb=2, trans='const')
    add('chi2/GS', h_chi2, ('chi2',), bands=('r', 'b'), types_=[G, S], nb=2, trans='const', zs=(0.25,))
    add('chi2/GQ/bbr', h_chi2, ('chi2',), bands=('b', 'b', 'r'), types_=[Q, G], nb=2, trans='const', zs=(0.5,), mask='one')
    add('chi2/NMF', h_chi2, ('chi2',), bands=('b', 'r'), types_=[G], nb=2, trans='const', method='NMF', zs=(0.25,))
    add('chi2/masked', h_chi2, ('chi2', 'masked'), bands=('b', 'r'), types_=[G], nb=2, trans='const', zs=(0.25,), mask='all', ntarget=2)
    add('refine/rb', h_refine, bands=('r', 'b'), nb=1, trans='constblue')
    add('refine/br', h_refine, bands=('b', 'r'), nb=2, trans='constblue')
    add('refine/Q', h_refine, bands=('b', 'r'), nb=1, trans='const', ttype='QSO', igm='Calura12', npts=4)
    add('rows/2', h_rows, order=(1, 0), ntarget=2)
    add('rows/3x2', h_rows, order=(2, 0, 1), ntarget=3, nrows=2)
    for form, rf, cov in [('arr', 'none', 'done'), ('arr', 'R', 'done'), ('dict', 'none', 'done'), ('dict', 'R', 'done'),
                          ('dict', 'badkeys', 'refused'), ('dict', 'list', 'refused')]:
        add(f'table/{form}/{rf}', h_table, (cov,), form=form, rform=rf)
    add('plot', h_plot, keys=2)
    add('plotarch/rb', h_plotarch, bands=('r', 'b'), percam=True)
    add('plotarch/rbr', h_plotarch, bands=('r', 'b', 'r'), percam=True, nleg=1)
    add('plotarch/shared', h_plotarch, bands=('b', 'r'), percam=False)
    if tier == 'thorough':
        add('plot/4', h_plot, keys=4)
        add('eval/nb4', h_eval, nb=4, extra=1, rmode='tri', trans='free', grid='r', z=0.125)
        add('chi2/nb3', h_chi2, ('chi2',), bands=('b', 'r', 'r'), types_=[G, Q, S], nb=3, trans='const', zs=(0.25, 0.5))
        add('chi2/NMF3', h_chi2, ('chi2',), bands=('b', 'r'), types_=[G, Q], nb=3, trans='const', method='NMF', zs=(0.25, 0.5))
        add('table/dict/R/3', h_table, form='dict', rform='R', n=3)
    return out
