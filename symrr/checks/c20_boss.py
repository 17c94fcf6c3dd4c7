"""C20: BOSS - target ids, spectra read from spPlate / spCFrame files, and rrboss."""
import inspect
import math
import os
import shutil
import tempfile
import types

import numpy as np

from .. import desienv, par
from ..loader import NS
from . import c14_files as F14
from . import c17_rrdesi as F17

PROPERTY = 'C20'
ASSUMPTIONS = ['zfind and load_dist_templates are replaced by stand-ins returning arbitrary fits (they are decided by C05-C10)',
               'FITS files return their contents unchanged; wavelengths and wdisp are fixed values',
               'coaddition of the spectra of a target is decided by C11']


def h_ids(ctx, kind):
    """ids are unique and can be taken apart again"""
    B = ctx.rr.load('redrock.external.boss')
    if kind == 'int':
        a = [(ctx.int(f'p{k}', 0, 99999), ctx.int(f'm{k}', 0, 99999), ctx.int(f'f{k}', 0, 9999)) for k in range(2)]
    else:
        # as they come out of a table: small integers of any width
        t = [np.int16, np.int32, np.int64][ctx.choice('type', 3)]
        a = [(p, m, t(f)) for p, m, f in ((3586, 55181, 1), (99999, 99999, 1000))]
        if ctx.choice('all', 2):
            t = np.int32
            a = [(t(p), t(m), t(f)) for p, m, f in a]
    ids = [B.platemjdfiber2targetid(*x) for x in a]
    for x, i in zip(a, ids):
        ctx.check(i == int_(x[0]) * 10**9 + int_(x[1]) * 10**4 + int_(x[2]), 'plate, mjd and fiber in decimal digits')
        back = B.targetid2platemjdfiber(i)
        ctx.check(len(back) == 3, 'three parts')
        for u, v in zip(back, x):
            ctx.check(u == v, 'taken apart again')
    ctx.check(ctx.Or(ids[0] != ids[1], ctx.And(*[u == v for u, v in zip(*a)])), 'no two fibers share an id')
    ctx.cover('done')


def int_(x):
    return int(x) if isinstance(x, np.integer) else x


class Hdr(dict):
    pass


class FHdu:
    def __init__(self, data, header, cols=None):
        self.data, self.header, self.cols = data, header, cols

    def read_header(self):
        return Hdr(self.header)

    def read(self):
        return self.data.copy()

    def __getitem__(self, c):
        return self.cols[c].copy()


class Files:
    """spPlate, photoPosPlate and spCFrame files: modelled, or real ones in replays"""

    def __init__(self, ctx):
        self.ctx = ctx
        if ctx.symbolic:
            self.files = {}
            me = self

            class FITS:
                def __init__(self, name):
                    if name not in me.files:
                        raise OSError(name)
                    self.h = me.files[name]

                def __getitem__(self, k):
                    return self.h[k]

                def close(self):
                    pass
            ctx.shim('fitsio', NS('fitsio', None, FITS=FITS))
        self.env = desienv.Env(ctx)
        self.dir = self.env.dir
        self.B = ctx.rr.load('redrock.external.boss')

    def write(self, name, hdus):
        path = self.dir + name
        if self.ctx.symbolic:
            self.files[path] = [FHdu(d, h, c) for d, h, c in hdus]
            return path
        from astropy.io import fits
        from astropy.table import Table
        out = fits.HDUList()
        for k, (d, h, c) in enumerate(hdus):
            if c is not None:
                x = fits.convenience.table_to_hdu(Table(c))
            else:
                x = (fits.ImageHDU if k else fits.PrimaryHDU)(None if d is None else np.asarray(d, dtype='>f4' if d.dtype.kind == 'f' else '>i4'))
            for n, v in h.items():
                x.header[n] = v
            out.append(x)
        out.writeto(path)
        return path



class Image:
    """flux, ivar, mask of all fibers of one file"""

    def __init__(self, ctx, tag, rows, npix, mask, good=None):
        if good == 'fixed':
            self.flux = ctx.arr([[1.0 + r + 0.5 * p for p in range(npix)] for r in range(rows)])
            self.ivar = ctx.arr([[1.0] * npix] * rows)
        else:
            self.flux = ctx.reals(f'f{tag}', (rows, npix), -5, 5)
            self.ivar = ctx.reals(f'v{tag}', (rows, npix), 0.125 if good else 0, 4)
        if mask:
            m = ctx.ints(f'k{tag}', rows * npix, -2**31, 2**31 - 1)
            self.mask = m.reshape(rows, npix)
        else:
            self.mask = np.zeros((rows, npix), dtype=np.int32)
            self.mask[0, -1] = 1
        # dispersion in pixels; one is missing
        self.wd = np.array([[(0.2 + 0.02 * r if good else 0.3 + 0.05 * r) + 0.004 * p for p in range(npix)] for r in range(rows)])
        if rows > 1 and npix > 3 and not good:
            self.wd[1, 3] = 0.0
            self.wd[0, 1] = 4e-6


def plate_file(ctx, F, tag, plate, mjd, fibers, coeff, npix, mask, extra=None, good=None):
    im = Image(ctx, tag, len(fibers), npix, mask, good)
    hdr = dict(PLATEID=plate, MJD=mjd, COEFF0=coeff[0], COEFF1=coeff[1])
    hdr.update(extra or {})
    im.wave = [[10**(coeff[0] + coeff[1] * k) for k in range(npix)]] * len(fibers)
    im.fibers, im.plate, im.mjd = fibers, plate, mjd
    im.lim = (3500.0, 10000.0)
    im.name = F.write(f'spPlate-{plate}-{mjd}.fits', [(im.flux, hdr, None), (im.ivar, {}, None), (im.mask, {}, None), (None, {}, None),
                                                     (im.wd, {}, None), (None, {}, dict(FIBERID=np.array(fibers, dtype=np.int32)))])
    return im


def frame_file(ctx, F, tag, plate, mjd, fibers, cam, exp, npix, mask):
    im = Image(ctx, tag, len(fibers), npix, mask)
    lo, step = (3.53, 0.05) if cam[0] == 'b' else (3.73, 0.06)
    log = np.array([[lo + step * k + 0.004 * r for k in range(npix)] for r in range(len(fibers))])
    im.wave = [[float(10**x) for x in r] for r in log.astype(np.float32 if not ctx.symbolic else np.float64)]
    im.fibers, im.plate, im.mjd = fibers, plate, mjd
    im.lim = (3500.0, 6000.0) if cam[0] == 'b' else (5500.0, 10000.0)
    im.name = F.write(f'spCFrame-{exp}.fits', [(im.flux, dict(PLATEID=plate, CAMERAS=cam), None), (im.ivar, {}, None), (im.mask, {}, None), (log, {}, None),
                                              (im.wd, {}, None), (None, {}, dict(FIBERID=np.array(fibers, dtype=np.int32)))])
    return im


def crop(im):
    w = np.array(im.wave)
    return [int(np.argmin(np.min(np.abs(w - x), axis=0))) for x in im.lim]


def gauss(im, r, lo, hi):
    """column-normalised Gaussian of the dispersion of this fiber, as a dense matrix"""
    wd = np.array(im.wd[:, lo:hi])
    wd[wd < 1e-5] = 2.0
    h = 2 * math.ceil(wd.max())
    n = hi - lo
    M = [[math.exp(-(i - j)**2 / 2 / wd[r, j]**2) if abs(i - j) <= h else 0.0 for j in range(n)] for i in range(n)]
    s = [sum(M[i][j] for i in range(n)) for j in range(n)]
    return [[M[i][j] / s[j] for j in range(n)] for i in range(n)]


def measured(ctx, iv, M):
    """pixels that the resolution hardly reaches are not used"""
    tot = [sum(m) for m in M]
    lim = ctx.rr.constants.min_resolution_integral
    assert all(abs(t - lim) > 1e-3 for t in tot), tot
    return [v if t > lim else 0.0 for v, t in zip(iv, tot)]


def h_read(ctx, plates, frames=None, npix=6, coeff=(3.45, 0.1), mask=False, opts=None, thing=None, sel=None, fiber=None, missing=(), good=None):
    F = Files(ctx)
    opts = dict(opts or {})
    names, ims = [], []
    for k, (plate, mjd, fibers) in enumerate(plates):
        extra, fr = {}, []
        n = 0
        for cam, m in (frames or {}).items():
            if cam not in missing:
                extra[f'NEXP_{cam.upper()}'] = m
            for _ in range(m):
                n += 1
                exp = f'{cam}-{k:04d}{n:04d}'
                extra[f'EXPID{n:02d}'] = exp + '-00000000-00000000'
                half = [x for x in fibers if (x <= 500) == (cam[1] == '1')]
                fr.append(frame_file(ctx, F, f'{k}{n}', plate, mjd, half, cam, exp, npix, mask))
        p = plate_file(ctx, F, f'{k}p', plate, mjd, fibers, coeff, npix if not frames else 1, mask, extra, good=good)
        names.append(p.name)
        for im in fr or [p]:
            im.thing = {x: thing[k][x] for x in im.fibers} if thing else None
            ims.append(im)
        if thing:
            F.write(f'photoPosPlate-{plate}-{mjd}.fits', [(None, {}, None), (None, {}, dict(THING_ID=np.array(
                [thing[k].get(x + 1, -7) for x in range(max(fibers))], dtype=np.int32)))])
    args = dict(use_frames=bool(frames), **opts)
    if fiber is not None:
        args['fiberid'] = fiber
    pl = plates[0][0] if len({p[0] for p in plates}) == 1 else 0
    mj = plates[0][1] if len({p[1] for p in plates}) == 1 else 0
    want = {}
    for im in ims:
        lo, hi = crop(im)
        for x in im.fibers:
            if fiber is not None and x not in (fiber if isinstance(fiber, list) else [fiber]):
                continue
            t = im.thing[x] if thing else im.plate * 10**9 + im.mjd * 10**4 + x
            # files keep fibers by their position in the spectrograph or on the plate
            r = (x - 1) % 500 if frames else x - 1
            want.setdefault(t, []).append((im, r, lo, hi))
    ids = sorted(want)
    if sel is not None:
        k = sel if isinstance(sel, list) else [ctx.choice('sel', len(ids))]
        asked = [ids[i] for i in k]
        args['targetids'] = list(asked)
        ids = sorted(asked)
    targets, meta = F17.quiet(lambda: F.B.read_spectra(names, **args))
    ctx.check([int(t.id) for t in targets] == ids, 'targets of the fibers, in order', f'{[int(t.id) for t in targets]} {ids}')
    ctx.check([int(x) for x in meta['TARGETID']] == ids, 'one row of metadata per target')
    brick = f'{pl}-{mj}'
    ctx.check(F17.text(meta['BRICKNAME']) == [brick] * len(ids), 'plate and mjd in the metadata', str(F17.text(meta['BRICKNAME'])))
    T = ctx.rr.targets
    for t in targets:
        ctx.check(t.meta['BRICKNAME'] == brick and F17.text(np.array([t.meta['BRICKNAME']], dtype=t.meta['BRICKNAME_datatype'])) == [brick],
                  'plate and mjd of the target')
        sp = []
        for im, r, lo, hi in want[int(t.id)]:
            iv = [im.ivar[r, p] for p in range(lo, hi)]
            if opts.get('use_andmask'):
                iv = [ctx.ite(im.mask[r, p] != 0, 0.0, v) if ctx.symbolic else (0.0 if im.mask[r, p] else v) for p, v in zip(range(lo, hi), iv)]
            M = gauss(im, r, lo, hi)
            sp.append((im.wave[r][lo:hi], [im.flux[r, p] for p in range(lo, hi)], measured(ctx, iv, M), M))
        tol = 1e-9 if ctx.symbolic else 1e-5
        if not opts.get('coadd'):
            ctx.check(len(t.spectra) == len(sp), 'one spectrum per exposure', f'{len(t.spectra)} {len(sp)}')
            got = [(s.wave, s.flux, s.ivar, s.R) for s in t.spectra]
        else:
            # the coadd of exactly these spectra
            dm = F.B.sparse.dia_matrix
            S = []
            for w, f, v, M in sp:
                n = len(w)
                o = np.arange(n - 1, -n, -1)
                d = np.zeros((len(o), n))
                for i, k in enumerate(o):
                    for j in range(n):
                        if 0 <= j - k < n:
                            d[i, j] = M[j - k][j]
                S.append(T.Spectrum(np.array(w), ctx.arr(f), ctx.arr(v), dm((d, o), (n, n)), None))
            e = T.Target(t.id, S, coadd=True)
            sp = [(s.wave, list(s.flux), list(s.ivar), dense(s.R)) for s in e.spectra]
            ctx.check(len(t.spectra) == len(sp), 'coadded spectra')
            got = [(s.wave, s.flux, s.ivar, s.R) for s in t.spectra]
        for (w, f, v, R), (w2, f2, v2, R2), s in zip(got, sp, t.spectra):
            ctx.check(len(w) == len(w2), 'wavelength range: 3500 to 10000, in frames b up to 6000 and r from 5500', f'{list(w)} {list(w2)}')
            if len(w) != len(w2):
                return
            ctx.eq(list(w), list(w2), 'wavelengths', tol)
            ctx.eq(list(v), v2, 'inverse variance of the fiber' + (', none where masked' if opts.get('use_andmask') else ''), tol)
            if not ctx.symbolic and opts.get('coadd'):
                # where nothing was measured the flux is arbitrary
                f, f2 = [x * (y > 0) for x, y in zip(f, v)], [x * (y > 0) for x, y in zip(f2, v)]
            ctx.eq(list(f), f2, 'flux of the fiber', tol)
            ctx.eq(dense(R), R2, 'resolution of the fiber, each column normalised', tol)
            if opts.get('cache_Rcsr') and not opts.get('coadd'):
                ctx.eq(dense(s.Rcsr), R2, 'cached resolution', tol)
    ctx.cover('done')


def dense(R):
    return [list(x) for x in R.toarray()]


class Run(F17.Run):
    def __init__(self, ctx, per, fail=None, has=None):
        self.ctx, self.per, self.fail = ctx, per, fail
        self.has = range(len(F17.TYPES)) if has is None else has
        self.calls, self.seen, self.tcalls = [], {}, []
        self.files = Files(ctx)
        self.env = self.files.env
        B = self.D = self.files.B
        sigz, sigt = inspect.signature(B.zfind), inspect.signature(B.load_dist_templates)
        ctx.rr.patch('external.boss', 'zfind', lambda *a, **k: self.zfind(sigz.bind(*a, **k)))
        ctx.rr.patch('external.boss', 'load_dist_templates', lambda *a, **k: self.load(sigt.bind(*a, **k)))
        self.table = None

    def load(self, b):
        b.apply_defaults()
        self.tcalls.append(dict(b.arguments))
        r = []
        for k in self.has:
            t = F17.Tmpl(k)
            t._version = t.version
            r.append(types.SimpleNamespace(template=t, _template=t))
        return r

    def go(self, opts, size=0):
        f = self.D.rrboss
        if not size:
            return F17.quiet(lambda: f(opts))
        return F17.quiet(lambda: par.run_ranks(self.ctx, size, lambda comm: f(opts, comm=comm), 'order'))


P, M = 3586, 55181


def tid(f):
    return P * 10**9 + M * 10**4 + f


def run_one(ctx, opts=(), n=3, out=True, details=True, good='fixed', **kw):
    run = Run(ctx, [[1, 0], [2, 1], [0, 1]], **kw)
    run.im = plate_file(ctx, run.files, 'p', P, M, list(range(1, n + 1)), (3.45, 0.1), 6, False, good=good)
    run.o, run.d = run.env.dir + 'zbest.fits', run.env.dir + 'd.h5'
    run.args = ['--spplate', run.im.name] + (['--zbest', run.o] if out else []) + (['-o', run.d] if details else []) + list(opts)
    return run


def h_catalog(ctx, size=0, n=3, opts=(), out=True, details=True, want=None):
    """fits of every selected target, best ones in the catalog"""
    run = run_one(ctx, opts, n, out, details, good=True)
    run.go(run.args, size)
    ids = [tid(k + 1) for k in (range(n) if want is None else want)]
    ctx.check(run.ids == ids, 'selected targets fitted', f'{run.ids}')
    tab = run.table
    first = [{c: tab[c][i] for c in tab.colnames} for i in range(len(tab)) if int(tab['znum'][i]) == 0]
    if out:
        hd, hdr = run.env.read(run.o)
        ctx.check(list(hd) == ['PRIMARY', 'ZBEST'], 'parts of the catalog')
        z = hd['ZBEST']
        for e in first:
            for c in ('fitmethod', 'spectype', 'subtype'):
                e[c] = F17.text([e[c]])[0]
        F17.catalog(ctx, z, first, True)
        ctx.check([hdr['PRIMARY'].get(f'TEMNAM{j:02d}') for j in range(4)] == [F17.Tmpl(j).full_type for j in run.has] + [None], 'templates named in the header')
        ctx.check([hdr['PRIMARY'].get(f'TEMVER{j:02d}') for j in range(3)] == ['2.6'] * 3, 'template versions in the header')
        ctx.check(bool(hdr['PRIMARY'].get('RRVER')), 'redrock version in the header')
    if details:
        scan, zf = ctx.rr.results.read_zscan(run.d)
        ctx.check({int(t) for t in scan} == set(ids), 'scans of all targets')
        F14.same_rows(ctx, zf, tab, range(len(tab)), False, 'details')
    # what was fitted
    tol = 1e-9 if ctx.symbolic else 1e-5
    im = run.im
    lo, hi = crop(im)
    ctx.check(sorted(run.seen) == sorted(ids), 'every target on exactly the ranks')
    for t in run.seen:
        (b, w, f, v), = run.seen[t]
        r = t - tid(1)
        v2 = measured(ctx, [im.ivar[r, p] for p in range(lo, hi)], gauss(im, r, lo, hi))
        ctx.eq(list(v), v2, 'inverse variance of that target', tol)
        ctx.eq(list(f), [im.flux[r, p] for p in range(lo, hi)], 'flux of that target', 10 * tol if ctx.symbolic else 1e-4)
    ctx.cover('done')


def h_opts(ctx, case):
    opts = []
    if case == 'scan':
        opts = ['--priors', 'p.fits', '--chi2-scan', 'c.h5', '-t', 'tdir', '--mp', '3']
    nm = ctx.choice('nminima', 3)
    if nm:
        opts += ['--nminima', str([0, 1, 5][nm])]
    adir = None
    if case == 'arch':
        class Arch:
            template_type, version, _version, filename = 'GALAXY', '1.0', '1.0', '/a/rrarchetype-galaxy.fits'
        asked = []

        def All(*a, **k):
            asked.append((a, k))
            return types.SimpleNamespace(archetypes={'GALAXY': Arch()})
        adir = '/adir'
    run = run_one(ctx, opts + (['--archetypes', adir] if adir else []))
    if adir:
        ctx.rr.patch('external.boss', 'All_archetypes', All)
    run.go(run.args)
    (rank, a), = run.calls
    ctx.check(a['nminima'] == [3, 1, 5][nm], 'number of minima')
    t, = run.tcalls
    if case == 'scan':
        ctx.check((a['priors'], a['chi2_scan']) == ('p.fits', 'c.h5'), 'fit options')
        ctx.check(t['templates'] == 'tdir', 'templates')
        ctx.check(t['mp_procs'] == 3 and a['mp_procs'] == 3, 'processes')
    ctx.check(len(t['dwave']) == 1, 'one wavelength grid')
    hd, hdr = run.env.read(run.o)
    if adir:
        ctx.check(isinstance(a['archetypes'], dict) and list(a['archetypes']) == ['GALAXY'], 'archetypes are used in the fit', repr(a['archetypes']))
        ctx.check((a['deg_legendre'], bool(a['per_camera']), a['prior_sigma'], a['n_nearest']) == (0, False, None, None), 'no Legendre terms')
        ctx.check(all((k.get('archetypes_dir') or (p and p[0])) == adir for p, k in asked), 'archetypes asked for')
        ctx.check((hdr['PRIMARY'].get('ARCNAM00'), hdr['PRIMARY'].get('ARCVER00')) == ('GALAXY', '1.0'), 'archetypes named in the header')
    else:
        ctx.check(not a['archetypes'] and hdr['PRIMARY'].get('ARCNAM00') is None, 'no archetypes')
    ctx.cover('done')


def h_refuse(ctx, size):
    """options that make no sense are refused before anything is fitted"""
    sel = ctx.choice('case', 3)
    run = run_one(ctx, [[], ['--targetids', str(tid(1)), '--mintarget', '0'], ['--targetids', str(tid(1)), '-n', '1']][sel], out=sel > 0, details=sel > 0)
    try:
        run.go(run.args, size)
    except SystemExit as e:
        ctx.check(not size, 'MPI is aborted')
        ctx.check(e.code not in (0, None), 'failure status')
    except par.MpiAbort:
        ctx.check(size > 0, 'MPI abort only with MPI')
    else:
        ctx.fail('refused', str(run.args))
    ctx.check(not run.calls, 'nothing is fitted')
    ctx.cover('done')


def h_fail(ctx, size, noabort):
    """a failing rank fails the run and leaves no catalog"""
    fail = ctx.int('rank', 0, max(size - 1, 0))
    run = run_one(ctx, ['--no-mpi-abort'] if noabort else [], fail=fail)
    try:
        run.go(run.args, size)
    except par.MpiAbort:
        ctx.check(size > 0 and not noabort, 'MPI abort only with MPI')
    except ValueError:
        ctx.check(not size or noabort, 'MPI is aborted when a rank fails')
    else:
        ctx.fail('failure is reported')
    for p in (run.o, run.d):
        if ctx.symbolic:
            ctx.check(run.env.fs.norm(p) not in run.env.fs.files, 'no result of a failed run')
        else:
            ctx.check(not os.path.exists(p), 'no result of a failed run')
    ctx.cover('done')


def configs(tier):
    th = tier == 'thorough'
    c = []

    def add(name, fn, bounds, w=2, validate=3, **params):
        c.append(dict(name=name, fn=fn, params=params, bounds=bounds, cover=['done'], validate=validate, weight=w))
    add('ids', h_ids, 'any two of plate, mjd < 100000, fiber < 10000', kind='int', validate=5)
    add('ids_table', h_ids, 'integers of 16, 32 and 64 bits', kind='np')
    one = [(P, M, [1, 2])]
    full = dict(coeff=(3.545, 0.0455), npix=12)
    add('plate', h_read, '2 fibers, 6 pixels, any flux and ivar', plates=one)
    add('plate_csr', h_read, 'with cached resolution, lower end within the range', plates=one, opts=dict(cache_Rcsr=True), coeff=(3.56, 0.08))
    add('andmask', h_read, 'any and_mask of 2 fibers x 5 pixels', plates=one, opts=dict(use_andmask=True), mask=True, npix=5, coeff=(3.52, 0.11), w=4)
    add('nomask', h_read, 'and_mask present but not used', plates=one, mask=True, npix=5, coeff=(3.52, 0.11))
    add('select', h_read, 'any one of 3 targets', plates=[(P, M, [1, 2, 3])], sel=1)
    add('select2', h_read, '2 of 3 targets, unordered', plates=[(P, M, [1, 2, 3])], sel=[2, 0])
    add('fiber', h_read, 'one fiber', plates=[(P, M, [1, 2, 3])], fiber=2)
    add('fibers', h_read, 'list of fibers', plates=[(P, M, [1, 2, 3])], fiber=[3, 1])
    add('coadd', h_read, 'coadd of 1 exposure', plates=one, good=True, opts=dict(coadd=True), npix=5, coeff=(3.52, 0.11), w=3)
    TH = [{1: 70001, 2: 70002}, {1: 70003, 2: 70001}]
    add('things', h_read, '2 plates, one object on both', plates=[(P, M, [1, 2]), (P + 1, M + 9, [1, 2])], thing=TH)
    add('things_mjd', h_read, 'a plate observed twice', plates=[(P, M, [1, 2]), (P, M + 9, [1, 2])], thing=TH)
    add('things_coadd', h_read, '2 plates, coadded', plates=[(P, M, [1, 2]), (P + 1, M + 9, [1, 2])], thing=TH, good=True, opts=dict(coadd=True), npix=5,
        coeff=(3.52, 0.11), w=4)
    add('frames', h_read, 'b1 twice, r1, r2; fibers of both spectrographs', plates=[(P, M, [1, 2, 501])], frames=dict(b1=2, r1=1, b2=0, r2=1))
    add('frames_missing', h_read, 'no exposures of b2 and r2', plates=[(P, M, [1, 2])], frames=dict(b1=1, r1=1, b2=0, r2=0), missing=('b2', 'r2'))
    add('frames_mask', h_read, 'any and_mask, frames', plates=one, frames=dict(b1=1, r1=1), opts=dict(use_andmask=True), mask=True, npix=5, w=4,
        missing=('b2', 'r2'))
    add('frames_things', h_read, 'frames of 2 plates', plates=[(P, M, [1, 2]), (P + 1, M + 9, [1, 2])], thing=TH, frames=dict(b1=1, r1=1, b2=0, r2=0), w=3)
    TH2 = [{1: 70001, 501: 70002}, {1: 70003, 501: 70001, 502: 70004}]
    add('frames_things2', h_read, 'frames of 2 plates, both spectrographs', plates=[(P, M, [1, 501]), (P + 1, M + 9, [1, 501, 502])], thing=TH2,
        frames=dict(b1=1, r1=0, b2=1, r2=1), w=3, missing=('r1',))
    for s in (0, 2, 3):
        add(f'run{s}', h_catalog, f'3 targets, {s or "no"} ranks, any fits', size=s)
    add('catalog_only', h_catalog, 'catalog only', details=False)
    add('details_only', h_catalog, 'details only', out=False)
    add('first', h_catalog, '--mintarget 1', opts=['--mintarget', '1'], want=[1, 2])
    add('count', h_catalog, '-n 2', opts=['-n', '2'], want=[0, 1])
    add('range', h_catalog, '--mintarget 1 -n 1', opts=['--mintarget', '1', '-n', '1'], want=[1])
    add('byid', h_catalog, '--targetids', opts=['--targetids', f'{tid(3)},{tid(1)}'], want=[0, 2])
    add('byid2', h_catalog, '--targetids, 2 ranks', opts=['--targetids', f'{tid(3)},{tid(1)}'], want=[0, 2], size=2)
    for k in ('plain', 'scan', 'arch'):
        add(f'opt_{k}', h_opts, 'options', case=k, validate=2)
    for s in (0, 2):
        add(f'refuse{s}', h_refuse, '3 bad command lines', size=s)
    for s in (0, 2, 3):
        for na in (False, True):
            add(f'fail{s}{"n" if na else ""}', h_fail, f'{s} ranks, any one fails', size=s, noabort=na)
    if th:
        add('full', h_read, '3 fibers, 12 pixels with both ends cut', plates=[(P, M, [1, 2, 3])], w=8, **full)
        add('frames_full', h_read, '4 cameras, 2 exposures each, fibers of both spectrographs', plates=[(P, M, [1, 2, 501, 502])], w=8,
            frames=dict(b1=2, r1=2, b2=2, r2=2))
        add('run4', h_catalog, '5 targets, 4 ranks', size=4, n=5, w=6)
    return c
