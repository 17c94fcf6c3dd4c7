"""C17: rrdesi - flags from the input, what is fitted, and what is written for whom."""
import contextlib
import inspect
import os
import types

import numpy as np

from .. import desienv, par
from ..lib import dia
from . import c14_files as F14
from . import c16_reader as F16

PROPERTY = 'C17'
ASSUMPTIONS = ['zfind and load_dist_templates are replaced by stand-ins returning arbitrary fits (they are decided by C05-C10)',
               'FITS returns tables unchanged']
UNASSIGNED, BROKEN, BADPOS, POORPOS = 1 << 0, 1 << 2, 1 << 9, 1 << 10
# bad columns: the name of this bit changed in desispec
BADCOL, BADAMP = 1 << 20, (1 << 22) | (1 << 23) | (1 << 24)
SKY, LITTLE, UNPLUGGED, BADTARGET, NODATA, POORDATA = 1, 2, 128, 256, 512, 2048
TYPES = [('GALAXY', ''), ('STAR', 'M'), ('QSO', 'HIZ-broad-absorption-lines')]
OBJ = ['TGT', 'SKY', 'BAD', '']


class Tmpl:
    version, nbasis = '2.6', 2

    def __init__(self, k):
        self.template_type, self.sub_type = TYPES[k]
        self.full_type = ':::'.join(x for x in TYPES[k] if x)
        self.filename = f'/t/rrtemplate-{k}.fits'
        self.k = k

    _rrtype = property(lambda s: s.template_type)

    def eval(self, coeff, wave, z, R=None):
        m = coeff[0] * (wave / 1000.0) + coeff[1] * (self.k + 1) + z
        return m if R is None else R.dot(m)


def quiet(f):
    with open(os.devnull, 'w') as n, contextlib.redirect_stdout(n), contextlib.redirect_stderr(n):
        return f()


class Run:
    """rrdesi with stand-ins for the fits"""

    def __init__(self, ctx, per, fail=None, has=None):
        self.ctx, self.per, self.fail = ctx, per, fail
        self.has = range(len(TYPES)) if has is None else has
        self.calls, self.seen, self.tcalls = [], {}, []
        self.env = desienv.Env(ctx)
        D = self.D = self.env.desi
        sigz, sigt = inspect.signature(D.zfind), inspect.signature(D.load_dist_templates)
        ctx.rr.patch('external.desi', 'zfind', lambda *a, **k: self.zfind(sigz.bind(*a, **k)))
        ctx.rr.patch('external.desi', 'load_dist_templates', lambda *a, **k: self.load(sigt.bind(*a, **k)))
        self.table = None

    def load(self, b):
        b.apply_defaults()
        self.tcalls.append(dict(b.arguments))
        return [types.SimpleNamespace(template=Tmpl(k)) for k in self.has]

    def fits(self, ids):
        """the fits of every target, any values"""
        ctx = self.ctx
        per = [self.per[t % len(self.per)] for t in range(len(ids))]
        ft = [Tmpl(k).full_type for k in range(len(TYPES))]
        tab, self.rows = F14.zfit_table(ctx, ids, ft, per, 2)
        tab['fitmethod'] = np.array([['PCA', 'NMF'][r[0] % 2] for r in self.rows], dtype='<U3')
        tab['zwarn'] = ctx.bvs('warn', len(self.rows), 24)
        return tab

    def zfind(self, b):
        b.apply_defaults()
        a = b.arguments
        targets = a['targets']
        rank = 0 if targets.comm is None else targets.comm.rank
        self.calls.append((rank, dict(a)))
        for t in targets.local():
            self.seen[int(t.id)] = [(s.band, s.wave.copy(), s.flux.copy(), s.ivar.copy()) for s in t.spectra]
        if self.fail is not None and self.ctx.truth(self.fail == rank):
            raise ValueError('fit failed')
        if targets.comm is not None:
            targets.comm.barrier()
        if rank:
            return {}, None
        ids = [int(x) for x in targets.all_target_ids]
        tab = self.fits(ids)
        self.table, self.ids = tab.copy(), ids
        scan = {i: {Tmpl(k).full_type: dict(redshifts=self.ctx.arr([0.0, 0.1]), penalty=self.ctx.arr([0.0, 0.0]), zchi2=self.ctx.arr([1.0, 2.0]),
                                          zcoeff=self.ctx.arr([[1.0], [2.0]])) for k in self.has} for i in ids}
        return scan, tab

    def go(self, opts, size=0):
        f = self.D.rrdesi
        if not size:
            return quiet(lambda: f(opts))
        return quiet(lambda: par.run_ranks(self.ctx, size, lambda comm: f(opts, comm=comm), 'order'))


def text(v):
    return [(x.decode() if isinstance(x, bytes) else str(x)).strip() for x in v]


def flagged(ctx, rows, i):
    """expected zwarn, nodata of row i"""
    pass


def sky_line(x, opts):
    return '--no-skymask' not in opts and (5572 <= x <= 5582 or 9792 <= x <= 9795)


def h_flags(ctx, files, per, size=0, opts=(), free=(0,), details=True, model=False, out=True, has=None, wave=None, objs=None, kinds=3, res=1):
    run = Run(ctx, per, has=has)
    fs = []
    nbv = 0
    for k, f in enumerate(files):
        f = F16.make(ctx, 'ABC'[k], sym=False, ndiag=res, **f)
        n = len(f['ids'])
        key = 'COADD_FIBERSTATUS' if f['coadded'] else 'FIBERSTATUS'
        f['fmap'][key] = [0] * n
        f['fmap']['OBJTYPE'] = ['TGT'] * n
        for r in range(n):
            if (k * 10 + r) in free:
                f['fmap'][key][r] = ctx.bv(f'status{nbv}', 31)
                nbv += 1
                ctx.assume((f['fmap'][key][r] & BADCOL) == 0)
                f['fmap']['OBJTYPE'][r] = OBJ[ctx.choice(f'obj{k}{r}', kinds)]
            elif objs:
                f['fmap']['OBJTYPE'][r] = objs[r]
        if wave:
            for b in f['bands']:
                f['wave'][b] = list(wave[b])
        fs.append(f)
    names = [run.env.write(f'f{k}.fits', f) for k, f in enumerate(fs)]
    o, d, m = run.env.dir + 'o/zbest.fits', run.env.dir + 'd.h5', run.env.dir + 'model.fits'
    args = ['-i'] + names + (['-o', o] if out else []) + (['-d', d] if details else []) + (['--model', m] if model else []) + list(opts)
    run.go(args, size)
    ids = run.ids
    want = []
    for f in fs:
        want += [t for t in desienv.ordered_unique(f['ids']) if t not in want]
    ctx.check(ids == want, 'all targets fitted')
    # expected catalog
    tab = run.table
    exp = []
    for i in range(len(tab)):
        t = int(tab['targetid'][i])
        st = [(f['fmap']['COADD_FIBERSTATUS' if f['coadded'] else 'FIBERSTATUS'][r], f['fmap']['OBJTYPE'][r])
              for f in fs for r in ([f['ids'].index(t)] if t in f['ids'] else [])]

        def any_(p):
            return any(ctx.truth(p(s, ob)) for s, ob in st)
        bad = any_(lambda s, ob: ob not in ('TGT', 'SKY'))
        nodata = bad or any_(lambda s, ob: (s & (BADPOS | BROKEN | UNASSIGNED)) != 0)
        zw = tab['zwarn'][i]
        for bit, c in ((POORDATA, any_(lambda s, ob: (s & POORPOS) != 0)), (NODATA, nodata), (UNPLUGGED, any_(lambda s, ob: (s & BROKEN) != 0)),
                       (SKY, any_(lambda s, ob: ob == 'SKY')), (LITTLE, any_(lambda s, ob: (s & BADAMP) != 0)), (BADTARGET, bad)):
            if c:
                zw = zw | bit
        e = {c: tab[c][i] for c in tab.colnames}
        e['zwarn'] = zw
        e['fitmethod'] = text([e['fitmethod']])[0]
        e['spectype'], e['subtype'] = text([e['spectype'], e['subtype']])
        if nodata:
            e.update(spectype='GALAXY', subtype='', coeff=[0.0] * len(e['coeff']), z=0.0, fitmethod='NONE')
        exp.append(e)
    first = [e for e in exp if int(e['znum']) == 0]
    if out or model:
        for path in ([o] if out else []) + ([m] if model else []):
            hd, hdr = run.env.read(path)
            z = hd['REDSHIFTS']
            catalog(ctx, z, first, path == o)
            ctx.check(hdr['PRIMARY'].get('TILEID') == 81, 'header of the input')
            tem = [hdr['PRIMARY'].get(f'TEMNAM{j:02d}') for j in range(len(run.has))]
            ctx.check(tem == [Tmpl(j).full_type for j in run.has], 'templates named in the header')
        if out:
            hd, _ = run.env.read(o)
            ctx.check([x for x in hd] == ['PRIMARY', 'REDSHIFTS', 'FIBERMAP', 'EXP_FIBERMAP', 'TSNR2'], 'parts of the catalog', str(list(hd)))
            frows = [(f, t) for f in fs for t in desienv.ordered_unique(f['ids'])]
            ctx.check([int(x) for x in hd['FIBERMAP']['TARGETID']] == [t for f, t in frows], 'fibermap of the targets')
            ctx.check(text(hd['FIBERMAP']['TAG']) == [f['fmap']['TAG'][f['ids'].index(t)] for f, t in frows], 'fibermap of the targets')
            if len(fs) == 1:
                ctx.check([int(x) for x in hd['FIBERMAP']['TARGETID']] == [int(x) for x in hd['REDSHIFTS']['TARGETID']], 'rows aligned')
            ctx.check(text(hd['EXP_FIBERMAP']['TAG']) == [x for f in fs for x in (f['exp'] or f['fmap'])['TAG']], 'exposures of the targets')
            ctx.check([int(x) for x in hd['TSNR2']['TARGETID']] == [t for f, t in frows], 'S/N of the targets')
    if model:
        hd, _ = run.env.read(m)
        bands = sorted({b for f in fs for b in f['bands']})
        ctx.check(sorted(x for x in hd if x not in ('PRIMARY', 'REDSHIFTS')) == sorted(f'{b.upper()}_{x}' for b in bands for x in ('WAVELENGTH', 'MODEL')),
                  'wavelength and model of each band')
        for b in bands:
            f0 = [f for f in fs if b in f['bands']][0]
            w = f0['wave'][b]
            ctx.eq(list(hd[f'{b.upper()}_WAVELENGTH']), w, 'wavelengths of the model')
            M = hd[f'{b.upper()}_MODEL']
            ctx.check(M.shape == (len(first), len(w)), 'one model per target')
            for r, e in enumerate(first):
                k = [ty for ty in range(3) if TYPES[ty] == (e['spectype'], e['subtype'])][0]
                if all(ctx.truth(c == 0) for c in e['coeff']):
                    mod = [0.0] * len(w)
                else:
                    raw = [e['coeff'][0] * (x / 1000.0) + e['coeff'][1] * (k + 1) + e['z'] for x in w]
                    f = [f for f in fs if int(e['targetid']) in f['ids'] and b in f['bands']]
                    if not f:
                        ctx.eq(list(M[r]), [0.0] * len(w), 'no model of a band without data')
                        continue
                    f = f[0]
                    R = f['res'][b][f['ids'].index(int(e['targetid']))]
                    mod = conv(R, raw)
                ctx.eq(list(M[r]), mod, 'model is that of the best fit of this target', 2e-5)
    if details:
        zf = run.D.write_zscan.__globals__['read_zfit'](d) if 'read_zfit' in run.D.write_zscan.__globals__ else ctx.rr.results.read_zfit(d)
        ctx.check([int(x) for x in zf['targetid']] == [int(e['targetid']) for e in exp], 'all fits in the details')
        ctx.check([str(x) for x in zf['spectype']] == [e['spectype'] for e in exp], 'type in the details')
        for c in ('z', 'zwarn', 'znum'):
            ctx.eq(list(zf[c]), [e[c] for e in exp], 'values in the details')
        ctx.eq([list(x) for x in zf['coeff']], [list(e['coeff']) for e in exp], 'values in the details', F14.T1)
        scan, zf2 = ctx.rr.results.read_zscan(d)
        ctx.check({int(t) for t in scan} == set(ids) and len(zf2) == len(exp), 'details can be read')
    # what was fitted
    for f in fs:
        if len(fs) > 1:
            break
        if not f['coadded']:
            for t in ids:
                rows = [r for r, x in enumerate(f['ids']) if x == t]
                every = '--allspec' in opts
                ctx.check(len(run.seen[t]) == len(f['bands']) * (len(rows) if every else 1), 'one spectrum per band, or all of them')
                got = []
                for b, wv, fl, iv in run.seen[t]:
                    got.append((b, [float(x) for x in iv]))
                    for x, v in zip(f['wave'][b], iv):
                        if sky_line(x, opts):
                            ctx.check(float(v) == 0, 'the bright sky lines are masked in every spectrum')
                if every:
                    exp = [(b, [0.0 if sky_line(x, opts) else float(v) for x, v in zip(f['wave'][b], f['ivar'][b][r])]) for b in f['bands'] for r in rows]
                    got, exp = sorted(got), sorted(exp)
                    ctx.check([b for b, _ in got] == [b for b, _ in exp], 'bands')
                    ctx.eq([v for _, v in got], [v for _, v in exp], 'only the bright sky lines are masked')
            break
        for r, t in enumerate(f['ids']):
            for (b, wv, fl, iv), bb in zip(run.seen[t], f['bands']):
                ctx.check(b == bb, 'bands')
                w2 = [0.0 if sky_line(x, opts) else v for x, v in zip(f['wave'][bb], f['ivar'][bb][r])]
                ctx.eq(list(iv), w2, 'only the bright sky lines are masked')
    ctx.cover('done')


def conv(R, x):
    nd, n = len(R), len(x)
    out = []
    for i in range(n):
        s = 0.0
        for d in range(nd):
            j = i + (nd // 2 - d)
            if 0 <= j < n:
                s = s + R[d][j] * x[j]
        out.append(s)
    return out


COLS = ['TARGETID', 'Z', 'ZERR', 'ZWARN', 'CHI2', 'DELTACHI2', 'COEFF', 'NPIXELS', 'NCOEFF', 'SPECTYPE', 'SUBTYPE', 'FITMETHOD']


def catalog(ctx, z, first, strict):
    ctx.check(set(z) == set(COLS), 'columns of the catalog', str(list(z)))
    ctx.check([int(x) for x in z['TARGETID']] == [int(e['targetid']) for e in first], 'one row per target, in order')
    if len(z['TARGETID']) != len(first):
        return
    ctx.eq(list(z['Z']), [e['z'] for e in first], 'redshift of the best fit')
    ctx.eq(list(z['ZWARN']), [lo32(ctx, e['zwarn']) for e in first], 'warnings of the fit and of the fiber')
    ctx.check(text(z['SPECTYPE']) == [e['spectype'] for e in first], 'type of the best fit', str(text(z['SPECTYPE'])))
    ctx.check(text(z['SUBTYPE']) == [e['subtype'] for e in first], 'subtype of the best fit')
    ctx.check(text(z['FITMETHOD']) == [e['fitmethod'] for e in first], 'fit method')
    for c in ('ZERR', 'CHI2', 'DELTACHI2'):
        ctx.eq(list(z[c]), [e[c.lower()] for e in first], 'values of the best fit', F14.T1)
    for c in ('NPIXELS', 'NCOEFF'):
        ctx.eq(list(z[c]), [e[c.lower()] for e in first], 'values of the best fit')
    ctx.eq([list(x) for x in z['COEFF']], [list(e['coeff']) for e in first], 'coefficients of the best fit', F14.T1)


def lo32(ctx, x):
    return x


def h_opts(ctx, case):
    """options reach the scan and the fit"""
    run = Run(ctx, [[0]])
    f = F16.make(ctx, 'A', True, [9, 4], 'br' if case != 'one' else 'b', 2, sym=False)
    name = run.env.write('f.fits', f)
    o = run.env.dir + 'z.fits'
    args = ['-i', name, '-o', o]
    adir = None
    if case in ('arch', 'archopts', 'one', 'noleg', 'archdeg'):
        class Arch:
            template_type, version, filename = 'GALAXY', '1.0', '/a/rrarchetype-galaxy.fits'
        ctx.rr.patch('external.desi', 'All_archetypes', lambda *a, **k: types.SimpleNamespace(archetypes={'GALAXY': Arch()}))
        import tempfile
        import shutil
        adir = tempfile.mkdtemp(prefix='symrr_')
        ctx.onclose(lambda: shutil.rmtree(adir, ignore_errors=True))
        open(adir + '/rrarchetype-galaxy.fits', 'w').close()
        if ctx.symbolic:
            real = run.env.fs
            ctx._shims['os'].access = os.access
            ctx._shims['os'].path.isdir = lambda p: os.path.isdir(p) or p in real.dirs
            ctx._shims['os'].listdir = os.listdir
        args += ['--archetypes', adir]
    nmin = ctx.choice('nminima', 3)
    if nmin:
        args += ['--nminima', str([0, 1, 5][nmin])]
    if case == 'archopts':
        pc, pr, dg = ctx.choice('percam', 3), ctx.choice('prior', 4), ctx.choice('deg', 3)
        if pc:
            args += ['--archetype-legendre-percamera', ['', 'True', 'False'][pc]]
        if pr:
            args += ['--archetype-legendre-prior=' + ['', '0.5', '0', '-1'][pr]]
        args += ['--archetype-legendre-degree', str(dg), '--archetype-nnearest', '2']
    if case == 'noleg':
        args += ['--archetypes-no-legendre']
    if case == 'scan':
        zs = [['--zscan-galaxy', '0,1,1e-3'], ['--zscan-qso', '1,2,1e-2'], ['--zscan-star=-1e-3,1e-3,1e-4']]
        giv = [ctx.choice(f'zscan{k}', 2) for k in range(3)]
        for x, g in zip(zs, giv):
            args += x if g else []
        args += ['--priors', 'p.fits', '--chi2-scan', 'c.h5',
                 '--zminfit-npoints', '9', '-t', 'tdir', '--mp', '3']
    run.go(args)
    rank, a = run.calls[0]
    ctx.check(len(run.calls) == 1, 'one fit')
    ctx.check(a['nminima'] == ([None, 1, 5][nmin] if nmin else (9 if adir else 3)), 'number of minima: as asked, else 3, or 9 with archetypes')
    t = run.tcalls[0]
    ctx.check({str(k) for k in t['dwave']} == set('b' if case == 'one' else 'br'), 'templates rebinned for all bands')
    if case == 'scan':
        zs = [v if g else d for v, g, d in zip(('0,1,1e-3', '1,2,1e-2', '-1e-3,1e-3,1e-4'), giv,
                                               ('-0.005,1.7,3e-4', '0.05,6.0,5e-4', '-0.002,0.00201,4e-5'))]
        got = [[float(x) for x in t[f'zscan_{k}'].split(',')] for k in ('galaxy', 'qso', 'star')]
        ctx.check(got == [[float(x) for x in z.split(',')] for z in zs] and t['templates'] == 'tdir', 'each scan range reaches its own class')
        ctx.check((a['priors'], a['chi2_scan'], a['zminfit_npoints']) == ('p.fits', 'c.h5', 9), 'fit options')
        ctx.check(t['mp_procs'] == 3 and a['mp_procs'] == 3, 'processes')
    if adir is None:
        ctx.check(not a['archetypes'], 'no archetypes')
    elif case == 'noleg':
        ctx.check(list(a['archetypes']) == ['GALAXY'], 'archetypes used')
        ctx.check((a['deg_legendre'], bool(a['per_camera']), a['prior_sigma']) == (0, False, None), 'no Legendre terms')
    elif case == 'archopts':
        ctx.check(list(a['archetypes']) == ['GALAXY'], 'archetypes used')
        ctx.check(a['deg_legendre'] == dg and a['n_nearest'] == 2, 'archetype options')
        ctx.check(bool(a['per_camera']) == (pc != 2), 'per camera unless switched off')
        ctx.check(a['prior_sigma'] == [0.1, 0.5, None, None][pr], 'prior, none when not positive')
    else:
        ctx.check((a['deg_legendre'], bool(a['per_camera']), a['prior_sigma'], a['n_nearest']) == (2, case != 'one', 0.1, None), 'archetype defaults')
    hd, hdr = run.env.read(o)
    ctx.check(hdr['PRIMARY'].get('ARCNAM00') == ('GALAXY' if adir else None), 'archetypes named in the header')
    ctx.cover('done')


NEG = [None, '2', '0.5', '7.5', '-3']


def h_negflux(ctx):
    """the significance beyond which negative fluxes are ignored is the one asked for"""
    run = Run(ctx, [[0]])
    f = F16.make(ctx, 'A', True, [9, 4], 'b', 2, sym='flux')
    sel = NEG[ctx.choice('nsig', len(NEG))]
    run.go(['-i', run.env.write('f.fits', f), '-o', run.env.dir + 'z.fits'] + ([] if sel is None else ['--negflux-nsig=' + sel]))
    nsig = 5 if sel is None else abs(float(sel))
    for r, t in enumerate(f['ids']):
        fl, iv = F16.expected(ctx, f, 'b', r, nsig)
        (b, wv, fl2, iv2), = run.seen[t]
        ctx.eq(fl2, fl, 'flux as in the file')
        ctx.eq(iv2, iv, 'fluxes more negative than asked for are ignored, others are not')
    ctx.cover('done')


COSMIC = [None, '2', '2.5', '4']


def h_cosmic(ctx, allspec):
    """cosmic rays are rejected in the coadds at the threshold asked for"""
    run = Run(ctx, [[0]])
    f = F16.make(ctx, 'A', False, [9, 4, 9], 'b', 4, sym=False)
    x = ctx.real('hit', 1, 60)
    f['flux']['b'][2][2] = x
    sel = COSMIC[ctx.choice('nsig', len(COSMIC))]
    run.go(['-i', run.env.write('f.fits', f), '-o', run.env.dir + 'z.fits'] + ([] if sel is None else ['--cosmics-nsig', sel])
           + (['--allspec'] if allspec else []))
    T = ctx.rr.targets
    for t in (f['ids'][0], f['ids'][1]):
        rows = [r for r in range(3) if f['ids'][r] == t]
        sps = [T.Spectrum(ctx.arr(f['wave']['b']), ctx.arr(f['flux']['b'][r]), ctx.arr(f['ivar']['b'][r]),
                          dia(ctx, f['res']['b'][r], [0], 4), None, band='b') for r in rows]
        tgt = T.Target(t, sps, coadd=not allspec, cosmics_nsig=0 if sel is None or allspec else float(sel))
        ctx.check(len(run.seen[t]) == len(tgt.spectra), 'coadded unless asked not to')
        for (b, wv, fl, iv), s in zip(run.seen[t], tgt.spectra):
            ctx.eq(fl, s.flux, 'cosmics rejected at the threshold asked for')
            ctx.eq(iv, s.ivar, 'cosmics rejected at the threshold asked for')
    ctx.cover('done')


def h_refuse(ctx):
    """options that make no sense are refused before anything is read or written"""
    run = Run(ctx, [[0]])
    f = F16.make(ctx, 'A', True, [9, 4], 'b', 2, sym=False)
    name = run.env.write('f.fits', f)
    o = run.env.dir + 'z.fits'
    sel = ctx.choice('case', 6)
    args = [['-i', name], ['-i', name, '-o', o, '--targetids', '9', '--mintarget', '0'], ['-i', name, '-o', o, '--targetids', '9', '-n', '1'],
            ['-i', name, '-o', o, '--archetypes', '/nonexistent/x.fits'], ['-o', o], ['-i', name, '-o', o, '--gpu']][sel]
    try:
        run.go(args)
    except SystemExit as e:
        ctx.check(e.code not in (0, None), 'failure status')
        ctx.check(not run.calls, 'nothing is fitted')
        ctx.cover('done')
        return
    ctx.fail('refused', str(args))


def h_fail(ctx, size, noabort):
    """a failing rank fails the run and leaves no catalog"""
    fail = ctx.int('rank', 0, max(size - 1, 0))
    run = Run(ctx, [[0]], fail=fail)
    f = F16.make(ctx, 'A', True, [9, 4], 'b', 2, sym=False)
    name = run.env.write('f.fits', f)
    o, d = run.env.dir + 'z.fits', run.env.dir + 'd.h5'
    args = ['-i', name, '-o', o, '-d', d, '--model', run.env.dir + 'm.fits'] + (['--no-mpi-abort'] if noabort else [])
    try:
        run.go(args, size)
    except par.MpiAbort:
        ctx.check(size > 0 and not noabort, 'MPI abort only with MPI')
    except ValueError:
        ctx.check(not size or noabort, 'MPI is aborted when a rank fails')
    else:
        ctx.fail('failure is reported')
    for p in (o, d, run.env.dir + 'm.fits'):
        if ctx.symbolic:
            ctx.check(run.env.fs.norm(p) not in run.env.fs.files, 'no result of a failed run')
        else:
            ctx.check(not os.path.exists(p), 'no result of a failed run')
    ctx.cover('done')


def configs(tier):
    th = tier == 'thorough'
    c = []

    def add(name, fn, bounds, w=3, validate=3, **params):
        c.append(dict(name=name, fn=fn, params=params, bounds=bounds, cover=['done'], validate=validate, weight=w))

    def F(coadded, ids, bands, npix=2):
        return dict(coadded=coadded, ids=ids, bands=bands, npix=npix)
    P = [[1, 0], [2, 1], [0, 1]]
    add('flags', h_flags, '2 targets, any fiber status of the first, 4 object types', files=[F(True, [9, 4], 'b')], per=P, kinds=4, w=12)
    add('flags2', h_flags, 'any fiber status of the second of 2 targets', files=[F(True, [9, 4], 'b')], per=P, free=(1,), details=False, kinds=1, w=6)
    add('uncoadded', h_flags, 'uncoadded, 2 targets, 3 exposures', files=[F(False, [9, 4, 9], 'b')], per=P, free=(1,), details=False, kinds=2, w=6)
    add('twofiles', h_flags, 'a target in 2 files, any status in the second', files=[F(True, [9, 4], 'b'), F(True, [7, 9], 'b')], per=P, free=(11,),
        kinds=1, details=False, w=6)
    add('objects', h_flags, '4 targets of 4 kinds', files=[F(True, [9, 4, 6, 3], 'b')], per=P, free=(), objs=OBJ)
    add('staronly', h_flags, 'star templates only, unusable fibers', files=[F(True, [9, 4], 'b')], per=[[1], [1, 1]], has=[1], objs=['BAD', 'TGT'], free=())
    add('details', h_flags, 'details only', files=[F(True, [9, 4], 'b')], per=P, free=(), objs=['SKY', 'BAD'], out=False)
    W = dict(b=[5571.999, 5572.0, 5577.0, 5582.0, 5582.001], r=[9791.5, 9792.0, 9793.0, 9795.0, 9795.5])
    add('skylines', h_flags, 'pixels at and next to the sky lines', files=[F(True, [9, 4], 'br', 5)], per=P, free=(), wave=W)
    add('noskymask', h_flags, '--no-skymask', files=[F(True, [9, 4], 'br', 5)], per=P, free=(), wave=W, opts=['--no-skymask'])
    add('sky_allspec', h_flags, 'sky lines in every one of 4 spectra of a target', files=[F(False, [9, 4, 9, 9, 9], 'br', 5)], per=P, free=(), wave=W,
        opts=['--allspec'])
    add('model', h_flags, 'models of 3 targets, 2 bands', files=[F(True, [9, 4, 6], 'br', 4)], per=P, free=(), objs=['TGT', 'TGT', 'BAD'], model=True, res=3)
    add('modelband', h_flags, 'models of targets in 2 files with other bands', files=[F(True, [9, 4], 'b'), F(True, [4, 6], 'r')], per=P, free=(), model=True)
    add('modelonly', h_flags, 'model and details without catalog', files=[F(True, [9, 4], 'b')], per=P, free=(), out=False, model=True)
    add('allspec', h_flags, '--allspec', files=[F(False, [9, 4, 9], 'b')], per=P, free=(), opts=['--allspec'])
    for s in (2, 3):
        add(f'mpi{s}', h_flags, f'{s} ranks, models', files=[F(True, [9, 4, 6], 'br')], per=P, free=(), objs=['TGT', 'BAD', 'TGT'], size=s, model=True)
    add('mpi2_only', h_flags, '2 ranks, model and details without catalog', files=[F(True, [9, 4, 6], 'b')], per=P, free=(), size=2, model=True, out=False)
    for k in ('plain', 'scan', 'arch', 'one', 'noleg', 'archopts'):
        add(f'opt_{k}', h_opts, 'options', case=k, validate=2)
    add('negflux', h_negflux, '2 targets, any fluxes, 5 thresholds', w=5)
    for al in (False, True):
        add(f'cosmic{int(al)}', h_cosmic, 'any flux of one pixel of 2 exposures, 4 thresholds', allspec=al, w=4)
    add('refuse', h_refuse, '6 bad command lines')
    for s in (0, 1, 2, 3):
        for na in (False, True):
            add(f'fail{s}{"n" if na else ""}', h_fail, f'{s} ranks, any one fails', size=s, noabort=na)
    add('mpi3few', h_flags, '3 ranks, 2 targets, models: a rank without targets', files=[F(True, [9, 6], 'b')], per=P, free=(), size=3, model=True)
    if th:
        add('flagsboth', h_flags, 'any status of both targets', files=[F(True, [9, 4], 'b')], per=P, free=(0, 1), kinds=2, details=False, w=30)
        add('mpi4', h_flags, '4 ranks, 5 targets', files=[F(True, [9, 4, 6, 1, 3], 'br')], per=P, free=(), objs=['TGT', 'BAD', 'TGT', 'SKY', 'TGT'], size=4, model=True, w=20)
    return c
