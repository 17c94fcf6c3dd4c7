"""C19: archetype fits: best of all archetypes, and the reported coefficients reproduce the reported chi2."""
import os
import shutil
import tempfile

import numpy as np

from .. import fakefs, lib

PROPERTY = 'C19'
ASSUMPTIONS = ['the coarse scan and the per-template chi2 are stubs with a given minimum; archetype fits are real',
               'lsq_linear: any coefficients within the bounds it is given, or (best of all) the exact solution when that is within the bounds',
               'archetype fluxes, resolution, weights and Legendre polynomials concrete; fluxes and coefficients symbolic']
WAVES = dict(b=[3600.0, 3800.0, 4000.0], r=[5900.0, 6000.0, 6100.0], z=[8000.0, 8100.0, 8200.0])
NEGMODEL = 8


def mount(ctx):
    if ctx.symbolic:
        import astropy.io
        from ..loader import NS
        fs = fakefs.FS(dirs=('/', '/in'))
        o = fs.os_module()
        re = o.path.exists
        o.path.exists = lambda p: re(p) or os.path.exists(p)
        o.path.expandvars = os.path.expandvars
        ctx.shim('os', o)
        ctx.shim('os.path', o.path)
        ctx.shim('astropy.io', NS('astropy.io', astropy.io, fits=fakefs.fits_module(fs)))
        return '/in/', fs
    d = tempfile.mkdtemp(prefix='symrr_')
    ctx.onclose(lambda: shutil.rmtree(d, ignore_errors=True))
    return d + '/', None


def write_arch(ctx, d, fs, rrtype, flux, subtypes, crval, cdelt, loglam, version='1.0'):
    name = f'{d}rrarchetype-{rrtype.lower()}.fits'
    hdr = dict(CRVAL1=crval, CDELT1=cdelt, LOGLAM=int(loglam), RRTYPE=rrtype, VERSION=version)
    if ctx.symbolic:
        h = fakefs.HDUL([fakefs.PHDU(), fakefs.FHDU(fakefs.Rec(dict(ARCHETYPE=ctx.arr(flux), SUBTYPE=np.array(subtypes))), None, 'ARCHETYPES')], fs)
        for k, v in hdr.items():
            h[1].header[k] = v
        fs.files[fs.norm(name)] = h
    else:
        from astropy.io import fits
        from astropy.table import Table
        x = fits.convenience.table_to_hdu(Table(dict(ARCHETYPE=np.array(flux, dtype=float), SUBTYPE=np.array(subtypes))))
        x.header['EXTNAME'] = 'ARCHETYPES'
        for k, v in hdr.items():
            x.header[k] = v
        fits.HDUList([fits.PrimaryHDU(), x]).writeto(name)
    return name


def solve(A, b):
    """Gaussian elimination; exact where the entries are"""
    n = len(b)
    M = [[A[i][j] for j in range(n)] + [b[i]] for i in range(n)]
    for i in range(n):
        p = next(r for r in range(i, n) if bool(M[r][i] != 0))
        M[i], M[p] = M[p], M[i]
        M[i] = [x / M[i][i] for x in M[i]]
        for r in range(n):
            if r != i and bool(M[r][i] != 0):
                M[r] = [x - M[r][i] * y for x, y in zip(M[r], M[i])]
    return [M[i][n] for i in range(n)]


class DistT:
    def __init__(self, tgs):
        self._t, self.comm, self.all_target_ids = tgs, None, [t.id for t in tgs]

    def local(self):
        return self._t

    def local_target_ids(self):
        return [t.id for t in self._t]


NBT = 12     # marks the data of the ordinary templates


class Case:
    def __init__(self, ctx, bands, types=('GALAXY',), arch=('GALAXY',), narch=2, zmin='mid', loglam=False, nsym=None, rmode='tri', nminima=1,
                 igm=None, highz=False, masked=False, more=()):
        self.ctx, self.types, self.nminima = ctx, types, nminima
        d, fs = mount(ctx)
        rr = ctx.rr
        # archetypes
        lo, step, n = (900.0, 200.0, 12) if highz else (2000.0, 300.0, 18)
        if loglam:
            lo, step = 3.25, 0.05
        self.arch = {}
        for k, t in enumerate(arch):
            fl = [[float((5 * i + 3 * a * i + 7 * a + 4 * k + (i * i) % 7) % 11 - (2 if a else -1)) for i in range(n)] for a in range(narch)]
            sub = [['ELG_1', 'LRG', 'ELG_1', 'Q'][a % 4] for a in range(narch)]
            write_arch(ctx, d, fs, t, fl, sub, lo, step, loglam)
            f = f'{d}rrarchetype-{t.lower()}.fits'
            self.arch.update(rr.archetypes.All_archetypes(lstfilename=[f]).archetypes)
        # data
        self.targets = []
        self.rmode = rmode
        for q, bb in enumerate([bands] + list(more)):
            sp = self.data(bb, masked and q == 0, nsym if q == 0 else None, rmode)
            self.targets.append(rr.targets.Target([7, -3, 39627788000000008][q], sp))
        self.spectra, self.target = self.targets[0].spectra, self.targets[0]
        # coarse scan and fine scan
        base = 2.2 if highz else 0.4
        nz = 6 if zmin == 'two' else 3
        self.zs = [base + 0.05 * i for i in range(nz)]
        self.coarse = [5.0, 1.0, 4.0, 6.0, 2.0, 7.0][:nz]
        if zmin == 'edge':
            self.coarse = [1.0, 2.0, 3.5]
        self.zmin = zmin
        self.tmpl = []
        for k, t in enumerate(types):
            self.tmpl.append(lib.template(ctx, ctx.arr(self.zs), nbasis=NBT - k, template_type=t, minwave=1.0, maxwave=1e5,
                                          igm_model=igm))
        self.calls = 0
        self.lastz = None

    def data(self, bands, masked, nsym, rmode):
        ctx, seen, sp = self.ctx, {}, []
        for i, b in enumerate(bands):
            w = WAVES[b]
            k = seen[b] = seen.get(b, -1) + 1
            iv = ctx.arr([0.0 if masked and j == 0 and i == 0 else [1.0, 2.0, 0.5][(i + j) % 3] for j in range(len(w))])
            fx = None
            if nsym is not None:
                fx = ctx.arr([float(5 + (3 * i + 5 * j) % 7) for j in range(len(w))])
                for q, (bi, j) in enumerate([(0, 1), (1, 0), (0, 2)][:nsym]):
                    if bi == i:
                        fx[j] = ctx.real(f'flux{q}', -20, 20)
            elif self.targets:
                fx = ctx.arr([float(2 + (4 * i + 3 * j + len(self.targets)) % 5) for j in range(len(w))])
            sp.append(lib.spectrum(ctx, f'{b}{k}', w, rmode, band=b, ivar=iv, flux=fx))
        return sp

    def rebin(self, template, z, dwave=None, dedges=None, use_gpu=False, xmin=None, xmax=None, **k):
        self.lastz = [float(z[i]) for i in range(len(z))]
        return {k: self.ctx.zeros((len(self.lastz), len(w), template.nbasis)) for k, w in dwave.items()}

    def pcaco(self, z, nb):
        return [float(round(1000 * z)) + k + 10 * nb for k in range(nb)]

    def run(self, mode, **kw):
        ctx = self.ctx
        rr = ctx.rr
        real = rr.zscan.calc_zchi2_batch
        rr.zfind

        def chi2(spectra, tdata, weights, flux, wflux, nz, nbasis, *a, **k):
            if nbasis < NBT - 1:
                return real(spectra, tdata, weights, flux, wflux, nz, nbasis, *a, **k)
            out, co = ctx.zeros((nz,)), ctx.zeros((nz, nbasis))
            for i, z in enumerate(self.lastz):
                out[i] = ctx.const(self.pcachi2(z))
                for q, v in enumerate(self.pcaco(z, nbasis)):
                    co[i, q] = ctx.const(v)
            return out, co
        rr.patch('rebin', 'rebin_template', self.rebin)
        rr.patch('zscan', 'calc_zchi2_batch', chi2)
        self.solved = []

        def bvls(A, b, bounds=(-np.inf, np.inf), method='trf', **k):
            n = len(b)
            i = len(self.solved)
            lob = [float(np.asarray(bounds[0], dtype=float).reshape(-1)[q % np.size(bounds[0])]) for q in range(n)]
            if mode == 'free':
                x = ctx.reals(f'x{i}', n, -4, 4)
                for q in range(n):
                    if lob[q] == 0:
                        ctx.require(x[q] >= 0)
            else:
                x = ctx.arr(solve([[A[r, c] for c in range(n)] for r in range(n)], [b[r] for r in range(n)]))
                # feasible, but not the best, where the best is not feasible
                x = ctx.arr([ctx.ite(x[q] < 0, 0, x[q]) if lob[q] == 0 else x[q] for q in range(n)])
            self.solved.append((lob, x))
            import types
            return types.SimpleNamespace(x=x, success=True, status=1)
        ctx.hook_solver('lsq_linear', bvls)

        def scan(targets, templates, mp_procs=1, use_gpu=False, **k):
            return {t.id: dict(meta={}, **{tp.template.full_type: dict(redshifts=ctx.arr(self.zs), zchi2=ctx.arr(self.scan_of(tp.template.template_type)), penalty=ctx.arr([0.0] * len(self.zs)), zcoeff=None)
                                           for tp in templates}) for t in targets.local()}
        rr.patch('zscan', 'calc_zchi2_targets', scan)
        rr.patch('zfind', 'calc_zchi2_targets', scan)
        dts = [lib.DTemplate(t, {}) for t in self.tmpl]
        scans, zfit = rr.zfind.zfind(DistT(self.targets), dts, nminima=self.nminima, archetypes=self.arch, zminfit_npoints=3, **kw)
        return zfit

    def scan_of(self, t):
        # the second type has one minimum only
        return self.coarse if t == self.types[0] or self.zmin != 'two' else [5.0, 1.0, 4.0, 4.5, 5.0, 5.5]

    def pcachi2(self, z):
        if self.zmin == 'edge':
            return 10 + 20 * (z - self.zs[0]) - 1000 * (z - self.zs[0]) * (z - self.zs[1])
        best = [self.zs[1]] + ([self.zs[4]] if len(self.zs) > 3 else [])
        return min(10 + i + 1000 * (z - b) ** 2 for i, b in enumerate(best))

    # oracle
    def columns(self, kind, z, idx, per_camera, nleg):
        """model columns: per pixel of all spectra, the archetypes then the Legendre terms (band by band if per camera)"""
        ctx = self.ctx
        a = self.arch[kind]
        bands = sorted({s.band for s in self.spectra})
        rows = []
        for s in self.spectra:
            n = len(s.wave)
            R = lib.dense(lib.rdata(n, 0, self.rmode), n)
            cols = []
            T = ctx.rr.igm.transmission_Lyman(z, s.wave, model=a.igm_model)
            for i in idx:
                v = ctx.rr.rebin.trapz_rebin((1 + z) * a.wave, a.flux[i], s.wave)
                cols.append(lib.matvec(R, [v[j] * T[j] for j in range(n)]))
            w = [s.wave[j] for j in range(n)]
            x = [2 * (u - w[0]) / (w[-1] - w[0]) - 1 for u in w]
            P = [[1 for u in x], x, [(3 * u * u - 1) / 2 for u in x]][:nleg]
            P = [lib.matvec(R, p) for p in P]
            zero = [0] * n
            if per_camera:
                for b in bands:
                    cols += P if b == s.band else [zero] * nleg
            else:
                cols += P
            for j in range(n):
                rows.append([c[j] for c in cols])
        return rows

    rmode = 'tri'

    def best(self, rows, prior, nfree):
        """exact least-squares coefficients and chi2"""
        f = [x for s in self.spectra for x in s.flux]
        w = [x for s in self.spectra for x in s.ivar]
        m = len(rows[0])
        M = [[lib.dot([wi * r[a] for wi, r in zip(w, rows)], [r[b] for r in rows]) for b in range(m)] for a in range(m)]
        if prior is not None:
            for q in range(nfree, m):
                M[q][q] = M[q][q] + 1 / (self.ctx.const(prior) * self.ctx.const(prior))
        y = [lib.dot([wi * r[a] for wi, r in zip(w, rows)], f) for a in range(m)]
        x = solve(M, y)
        return x, sum(wi * (fi - lib.dot(r, x)) ** 2 for wi, fi, r in zip(w, f, rows))


def row(zfit, r, first=None):
    return {k.upper(): zfit[k][r] for k in zfit.colnames}


def residual(ctx, case, model):
    t = 0
    for s in case.spectra:
        m = model[s.wavehash]
        for j in range(len(s.wave)):
            d = s.flux[j] - m[j]
            t = t + s.ivar[j] * d * d
    return t


def common(ctx, case, zfit, nrow_types, n_nearest):
    rows = []
    for r in range(len(zfit['targetid'])):
        b = row(zfit, r)
        st, sub = str(b['SPECTYPE']).strip(), str(b['SUBTYPE']).strip()
        isarch = st in case.arch
        rows.append((st, sub, isarch, b))
        ctx.check(str(b['FITMETHOD']).strip() == ('ARCH' if isarch else 'PCA'), 'fit method')
        nb = next(t.nbasis for t in case.tmpl if t.template_type == st)
        exp = case.pcaco(float(b['Z']), nb)
        for k in ('PCA_COEFF', 'PCA_SPECTYPE', 'PCA_SUBTYPE', 'LEGCOEFF'):
            ctx.check(k in b, f'column present: {k}')
        pc = np.asarray(b['PCA_COEFF']).reshape(-1)
        ctx.eq([pc[q] for q in range(min(nb, len(pc)))], exp[:len(pc)], 'template coefficients kept beside the archetype fit')
        ctx.check(len(pc) >= nb, 'all template coefficients kept')
        ctx.check(str(b['PCA_SPECTYPE']).strip() == st and str(b['PCA_SUBTYPE']).strip() == '', 'template type kept')
        if not isarch:
            co = np.asarray(b['COEFF']).reshape(-1)
            ctx.eq([co[q] for q in range(nb)], exp, 'coefficients of a type without archetypes are those of the template fit')
            continue
        subs = sub.split(';')
        ctx.check(len(subs) == (n_nearest or 1) and len(set(subs)) == len(subs) and all(s in list(case.arch[st].sub_type) for s in subs),
                  'archetypes named in the subtype')
        ctx.check(int(b['NCOEFF']) == len(subs), 'number of coefficients')
    ctx.check([int(b['TARGETID']) for *_, b in rows] == [t.id for t in case.targets for i in range(nrow_types)], 'one row per candidate')
    return rows


def h_free(ctx, bands, per_camera, nleg, n_nearest=None, prior=0.1, **kw):
    """whatever coefficients the solver finds: best one chosen, and the model evaluated from the row has the reported chi2"""
    case = Case(ctx, bands, **kw)
    zfit = case.run('free', per_camera=per_camera, deg_legendre=nleg, n_nearest=n_nearest, prior_sigma=prior, ncamera=len(set(bands).union(*kw.get('more', ()))))
    n = len(case.types) + (kw.get('zmin') == 'two')
    for st, sub, isarch, b in common(ctx, case, zfit, n, n_nearest):
        if not isarch:
            continue
        co = np.asarray(b['COEFF']).reshape(-1)
        k = len(sub.split(';'))
        neg = ctx.Or(*[co[q] < 0 for q in range(k)])
        pos = ctx.And(*[co[q] > 0 for q in range(k)])
        zw = b['ZWARN']
        for q in range(k):
            ctx.le(0, co[q], 'archetype coefficients not negative')
        ctx.check(ctx.Implies(neg, zw & NEGMODEL != 0), 'negative archetype flagged')
        ctx.check(ctx.Implies(pos, zw & NEGMODEL == 0), 'positive archetypes not flagged')
        tg = next(t for t in case.targets if t.id == int(b['TARGETID']))
        model = tg.eval_model(b, {}, archetypes=case.arch)
        ctx.eq(b['CHI2'], residual(ctx, tg, model), 'the model of the row has the chi2 of the row')
    ctx.cover('done')


def h_best(ctx, bands, per_camera, nleg, n_nearest=None, prior=None, **kw):
    """exact solutions within the bounds: the reported chi2 is the least over all archetypes"""
    case = Case(ctx, bands, **kw)
    if n_nearest:
        # data near a positive mixture, so that the exact solutions are within the bounds
        st = case.types[0]
        a = case.arch[st]
        rows = case.columns(st, case.zs[1], range(len(a.sub_type)), True, 0)
        i = 0
        for s in case.spectra:
            for j in range(len(s.wave)):
                v = float(lib.dot(rows[i], [[1.0, 3.0, 2.0][q % 3] for q in range(len(a.sub_type))]))
                s.flux[j] = ctx.const(round(v)) + (ctx.real('flux', -3, 3) if i == 2 else 0)
                i += 1
    zfit = case.run('opt', per_camera=per_camera, deg_legendre=nleg, n_nearest=n_nearest, prior_sigma=prior, ncamera=len(set(bands)))
    for st, sub, isarch, b in common(ctx, case, zfit, 1, n_nearest):
        a = case.arch[st]
        z = float(b['Z'])
        chi = []
        pr = prior if per_camera else None
        for i in range(len(a.sub_type)):
            x, c = case.best(case.columns(st, z, [i], per_camera, nleg), pr, 1)
            ctx.assume(x[0] >= 0)
            chi.append(c)
        names = [str(s) for s in a.sub_type]
        sel = [names.index(s) for s in sub.split(';')]
        for i in sel:
            for j in range(len(names)):
                if j not in sel:
                    ctx.le(chi[i], chi[j] + 1e-6, 'best archetypes chosen')
        x, c = case.best(case.columns(st, z, sel, per_camera, nleg), pr, len(sel))
        for q in range(len(sel)):
            ctx.assume(x[q] >= 0)
        ctx.eq(b['CHI2'], c, 'chi2 of the best fit', tol=1e-6)
        co = np.asarray(b['COEFF']).reshape(-1)
        ctx.eq([co[q] for q in range(len(sel))], x[:len(sel)], 'archetype coefficients of the best fit', tol=1e-6)
        if prior is None:
            model = case.target.eval_model(b, {}, archetypes=case.arch)
            ctx.eq(b['CHI2'], residual(ctx, case, model), 'the model of the row has the chi2 of the row')
    ctx.cover('done')


def configs(tier):
    th = tier == 'thorough'
    c = []

    def add(name, fn, bounds, w=4, validate=3, **params):
        c.append(dict(name=name, fn=fn, params=params, bounds=bounds, cover=['done'], validate=validate, weight=w))
    add('br', h_free, '2 bands, 2 archetypes, per camera, 2 Legendre terms', bands='br', per_camera=True, nleg=2)
    add('rb', h_free, 'bands in another order', bands='rb', per_camera=True, nleg=2)
    add('zbr', h_free, '3 bands in another order, 1 Legendre term', bands='zbr', per_camera=True, nleg=1)
    add('allspec', h_free, '2 spectra of one band', bands='brb', per_camera=True, nleg=1)
    add('shared', h_free, 'Legendre terms shared by all bands', bands='rb', per_camera=False, nleg=2)
    add('shared1', h_free, '1 Legendre term shared by all bands', bands='rb', per_camera=False, nleg=1)
    add('noleg', h_free, 'no Legendre terms, no prior', bands='br', per_camera=False, nleg=0, prior=None)
    add('noprior', h_free, 'no prior', bands='br', per_camera=True, nleg=1, prior=None)
    add('near', h_free, '2 nearest of 2 archetypes, per camera', bands='br', per_camera=True, nleg=1, n_nearest=2)
    add('near_noprior', h_free, '2 nearest, no prior', bands='br', per_camera=True, nleg=1, n_nearest=2, prior=None)
    add('near_shared', h_free, '2 nearest, shared Legendre terms', bands='br', per_camera=False, nleg=1, n_nearest=2)
    add('two', h_free, '2 minima', bands='rb', per_camera=True, nleg=2, zmin='two', nminima=2, narch=1)
    add('oneband', h_free, '1 band per camera', bands='b', per_camera=True, nleg=2, zmin='two', nminima=2, narch=1)
    add('edge', h_free, 'parabola minimum outside the scan', bands='br', per_camera=True, nleg=1, zmin='edge', highz=True)
    add('lya', h_free, 'Lyman absorption, archetype and template models agree', bands='br', per_camera=True, nleg=1, highz=True, igm='Inoue14')
    add('lya_other', h_free, 'template with another absorption model', bands='br', per_camera=True, nleg=1, highz=True, igm='Calura12')
    add('lya_rb', h_free, 'Lyman absorption in the second band only', bands='rb', per_camera=True, nleg=1, highz=True, igm='Inoue14', narch=1, nsym=0)
    add('nleg4', h_free, '4 Legendre terms per camera', bands='rb', per_camera=True, nleg=4, narch=1, nsym=0)
    add('nleg4_shared', h_free, '4 shared Legendre terms', bands='br', per_camera=False, nleg=4, narch=1, nsym=0)
    add('loglam', h_free, 'logarithmic wavelength grid', bands='br', per_camera=True, nleg=1, loglam=True)
    add('first', h_free, 'archetypes for the first of 2 types', bands='br', per_camera=True, nleg=1, types=('GALAXY', 'QSO'), arch=('GALAXY',))
    add('second', h_free, 'archetypes for the second of 2 types', bands='br', per_camera=True, nleg=1, types=('GALAXY', 'QSO'), arch=('QSO',))
    add('both', h_free, 'archetypes for 2 types', bands='br', per_camera=True, nleg=1, types=('GALAXY', 'QSO'), arch=('GALAXY', 'QSO'), narch=1)
    for k, (ty, ar) in enumerate([(('GALAXY', 'QSO'), ('GALAXY',)), (('GALAXY', 'QSO'), ('QSO',)), (('QSO', 'GALAXY'), ('QSO',))]):
        add(f'uneven{k}', h_free, '2 minima of one type, 1 of the other', bands='br', per_camera=True, nleg=1, types=ty, arch=ar, zmin='two', nminima=2, narch=1, nsym=0)
    add('targets', h_free, '3 targets, bands in another order', bands='br', more=['rb', 'br'], per_camera=True, nleg=1, narch=1, nsym=0)
    add('lacking', h_free, '2 targets, the second lacks a band', bands='br', more=['r'], per_camera=True, nleg=2, narch=1, nsym=0)
    add('lacking2', h_free, '2 targets, the first lacks a band', bands='r', more=['br'], per_camera=True, nleg=1, narch=1, nsym=0, types=('GALAXY', 'QSO'), arch=('QSO',))
    add('best', h_best, 'best of 3 archetypes, 2 symbolic pixels', bands='br', per_camera=True, nleg=1, narch=3, nsym=2)
    add('best_prior', h_best, 'best of 2 archetypes, prior', bands='rb', per_camera=True, nleg=2, nsym=1, prior=0.5)
    add('best_shared', h_best, 'best of 2 archetypes, shared Legendre terms', bands='br', per_camera=False, nleg=2, nsym=2)
    add('best_near', h_best, '2 nearest of 3 archetypes', bands='br', per_camera=True, nleg=1, narch=3, n_nearest=2, nsym=1)
    add('best_near_prior', h_best, '2 nearest of 3 archetypes, prior', bands='br', per_camera=True, nleg=1, narch=3, n_nearest=2, nsym=1, prior=0.5)
    return c
