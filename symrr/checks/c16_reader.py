"""C16: every row of the input spectra files reaches its target, with its own masks, and nothing else does."""
import math

import numpy as np

from .. import desienv, par

PROPERTY = 'C16'
ASSUMPTIONS = ['desispec: Resolution is the band-diagonal matrix of its rows; coadd_fibermap keeps one row per target in order of '
               'first appearance and the exposures in input order; scores are summed per target',
               'FITS returns images and tables unchanged', 'ivar >= 0']
NSIG = 3
# real ids have 17 digits: neighbours are the same number in double precision
BASE = 39627788000000000


def big(i):
    """target ids; unassigned fibers have negative ones"""
    return i + BASE if i >= 0 else i



def make(ctx, tag, coadded, ids, bands, npix, special=0, mask=(), ndiag=1, last=False, sym=True):
    ids = [big(i) for i in ids]
    bands = list(bands)
    n = len(ids)
    f = dict(coadded=coadded, bands=list(bands), wave={}, flux={}, ivar={}, mask={}, res={}, tables_last=last, ids=list(ids),
             header=dict(SPGRP='cumulative', TILEID=81 + 'ABC'.index(tag)))
    if coadded:
        f['fmap'] = dict(TARGETID=ids, COADD_FIBERSTATUS=[k for k in range(n)], OBJTYPE=['TGT'] * n, TILEID=[5] * n, TAG=[f'{tag}{k}' for k in range(n)])
        exp = [(i, e) for i in ids for e in range(2)]
        m = len(exp)
        f['exp'] = dict(TARGETID=[i for i, e in exp], FIBERSTATUS=[0] * m, OBJTYPE=['TGT'] * m, TILEID=[5] * m, TAG=[f'{tag}e{k}' for k in range(m)])
    else:
        f['fmap'] = dict(TARGETID=ids, FIBERSTATUS=[0] * n, OBJTYPE=['TGT'] * n, TILEID=[5] * n, TAG=[f'{tag}{k}' for k in range(n)])
        f['exp'] = None
    f['scores'] = dict(TARGETID=ids, INTEG_COADD_FLUX_B=[1.5] * n, TSNR2_LRG_B=[float(3 + k) for k in range(n)], TSNR2_BGS_R=[0.5] * n,
                       TSNR2_LRG=[float(3 + k) for k in range(n)], TSNR2_BGS=[0.5] * n)
    k = 0
    for b in bands:
        f['wave'][b] = [3600.1 + 1000 * bands.index(b) + 0.8 * j for j in range(npix)]
        if sym:
            f['flux'][b] = [[ctx.real(f'{tag}f{b}{r}{j}', -20, 20) for j in range(npix)] for r in range(n)]
            f['ivar'][b] = [[ctx.real(f'{tag}v{b}{r}{j}', 0, 9) if sym is True else (1.0 + r + 0.5 * j) ** 2 for j in range(npix)] for r in range(n)]
        else:
            f['flux'][b] = [[float(1 + 10 * r + j + 100 * bands.index(b)) for j in range(npix)] for r in range(n)]
            f['ivar'][b] = [[float(1 + r + 0.25 * j) for j in range(npix)] for r in range(n)]
        if special:
            # one not-a-number or infinite value anywhere in the band
            what, r, j = ctx.choice(f'{tag}w{b}', 7), ctx.choice(f'{tag}r{b}', n), ctx.choice(f'{tag}j{b}', npix)
            if what:
                f['flux' if what < 4 else 'ivar'][b][r][j] = [math.nan, math.inf, -math.inf][(what - 1) % 3]
        f['mask'][b] = [[ctx.int(f'{tag}m{b}{r}{j}', -2**31, 2**31 - 1) for j in range(npix)] for r in range(n)] if b in mask else None
        f['res'][b] = [[[1.0 + 0.5 * r + 0.125 * d + 0.01 * j + bands.index(b) for j in range(npix)] for d in range(ndiag)] for r in range(n)]
    return f


def bad(x):
    return isinstance(x, float) and (math.isnan(x) or math.isinf(x))


def expected(ctx, f, b, r, nsig):
    fl, iv = [], []
    for j, (x, w) in enumerate(zip(f['flux'][b][r], f['ivar'][b][r])):
        if bad(x):
            x, w = 0.0, 0.0
        if bad(w):
            w = 0.0
        w = ctx.ite(ctx.And(x < 0, x * x * w > nsig * nsig), 0.0, w)
        if f['mask'][b] is not None:
            w = ctx.ite(f['mask'][b][r][j] == 0, w, 0.0)
        fl.append(x)
        iv.append(w)
        ctx.generic(x * x * w - nsig * nsig)
    return fl, iv


def keep_ids(f, targetids, first, n):
    ids = desienv.ordered_unique(f['ids']) if targetids is None else list(targetids)
    return ids[first or 0:][:n if n is not None else None]


def h_read(ctx, files, size=0, coadd=False, targetids=None, first=None, n=None, batch=None, nsig=NSIG, caps=None):
    env = desienv.Env(ctx, {10000: batch} if batch else None)
    targetids = None if targetids is None else [big(t) for t in targetids]
    fs = [make(ctx, 'ABC'[k], **f) for k, f in enumerate(files)]
    names = [env.write(f'f{k}.fits', f) for k, f in enumerate(fs)]
    D = env.desi.DistTargetsDESI

    def rank(comm):
        d = D(names, coadd=coadd, targetids=targetids, first_target=first, n_target=n, comm=comm, negflux_nsig=nsig,
              cache_Rcsr=True, capacities=caps)
        return (list(d.all_target_ids), list(d.local_target_ids()), list(d.local()), d.fibermap, d.exp_fibermap, d.tsnr2, d.wavegrids(),
                dict(d.header0))
    outs = par.run_ranks(ctx, size, rank, 'order') if size else [rank(None)]
    # which targets, in which order
    keeps = [keep_ids(f, targetids, first, n) for f in fs]
    if targetids is not None:
        keeps = [[t for t in desienv.ordered_unique(f['ids']) if t in k] for f, k in zip(fs, keeps)]
    every = []
    for k in keeps:
        every += [t for t in k if t not in every]
    where = {}
    for al, loc, data, *_ in outs:
        ctx.check([int(t) for t in al] == every, 'all targets, in the order they first appear, on every rank', f'{al} {every}')
        ctx.check([int(t) for t in loc] == [int(t.id) for t in data], 'local ids aligned with local data')
        for t in data:
            ctx.check(int(t.id) not in where, 'no target on two ranks')
            where[int(t.id)] = t
    ctx.check(sorted(where) == sorted(every), 'every target on some rank')
    for tid in every:
        if tid not in where:
            continue
        sp = where[tid].spectra
        want = [(f, b, r) for f, k in zip(fs, keeps) if tid in k for b in f['bands'] for r in range(len(f['ids'])) if f['ids'][r] == tid]
        if coadd:
            order = []
            for f, b, r in want:
                if b not in order:
                    order.append(b)
            ctx.check([s.band for s in sp] == order, 'one coadd per band')
            for s, b in zip(sp, order):
                parts = [expected(ctx, f, bb, r, nsig) for f, bb, r in want if bb == b]
                W = [sum((p[1][j] for p in parts), 0) for j in range(len(s.wave))]
                ctx.eq(s.ivar, W, 'coadd of the spectra of this target')
                for j in range(len(s.wave)):
                    num = sum((p[0][j] * p[1][j] for p in parts), 0)
                    if ctx.truth(W[j] > 0):
                        ctx.eq(s.flux[j] * W[j], num, 'coadd of the spectra of this target')
            continue
        ctx.check(len(sp) == len(want), 'all spectra of the target')
        ctx.check([s.band for s in sp] == [b for f, b, r in want], 'spectra by file, band and row')
        for s, (f, b, r) in zip(sp, want):
            fl, iv = expected(ctx, f, b, r, nsig)
            ctx.eq(s.wave, f['wave'][b], 'wavelengths of the band')
            ctx.check(all(abs(float(x) - y) < 1e-9 * y for x, y in zip(s.wave, f['wave'][b])), 'wavelengths in full precision')
            ctx.eq(s.flux, fl, 'flux of this row, invalid values zero')
            ctx.eq(s.ivar, iv, 'ivar of this row, zero where invalid, masked or significantly negative')
            nd = len(f['res'][b][r])
            ctx.check([int(o) for o in s.R.offsets] == list(range(nd // 2, -(nd // 2) - 1, -1)), 'resolution diagonals')
            ctx.eq(s.R.data, f['res'][b][r], 'resolution of this row')
    fm, ex, ts, wg, h0 = outs[0][3:]
    for _, _, _, fm, ex, ts, wg, h0 in outs:
        rows = [(f, i) for f, k in zip(fs, keeps) for i, t in enumerate(desienv.ordered_unique(f['ids'])) if t in k]
        first_row = [f['ids'].index(desienv.ordered_unique(f['ids'])[i]) for f, i in rows]
        ctx.check([int(x) for x in fm['TARGETID']] == [f['ids'][k] for (f, i), k in zip(rows, first_row)], 'fibermap has the rows of the targets')
        ctx.check([txt(x) for x in fm['TAG']] == [f['fmap']['TAG'][k] for (f, i), k in zip(rows, first_row)], 'fibermap rows complete')
        tags = [(f['exp'] or f['fmap'])['TAG'][k] for f, kk in zip(fs, keeps) for k, t in enumerate((f['exp'] or f['fmap'])['TARGETID']) if t in kk]
        ctx.check([txt(x) for x in ex['TAG']] == tags, 'exposures of the targets')
        ctx.check([int(x) for x in ts['TARGETID']] == [f['ids'][k] for (f, i), k in zip(rows, first_row)], 'S/N of the targets')
        ctx.eq(list(ts['TSNR2_LRG_B']), [sum(f['scores']['TSNR2_LRG_B'][k] for k, t in enumerate(f['ids']) if t == f['ids'][k0])
                                         for (f, i), k0 in zip(rows, first_row)], 'S/N of the targets', 1e-5)
        if all(f['coadded'] for f in fs):
            ctx.check(all(c == 'TARGETID' or c.startswith('TSNR2_') for c in ts.colnames), 'S/N columns only')
        ctx.check(set(wg) == {s.band for t in where.values() for s in t.spectra}, 'wavelength grids of all bands on every rank')
        for b in wg:
            ctx.eq(wg[b], [f for f in fs if b in f['bands']][0]['wave'][b], 'wavelength grids of all bands on every rank')
            ctx.check(all(abs(float(x) - y) < 1e-9 * y for x, y in zip(wg[b], [f for f in fs if b in f['bands']][0]['wave'][b])), 'wavelengths in full precision')
        ctx.check(h0['TILEID'] == 81, 'header of the first file')
    ctx.cover('done')


def txt(x):
    return x.decode() if isinstance(x, bytes) else str(x)


def h_range(ctx, nt):
    """a range of targets beyond the file is refused, others are honoured"""
    env = desienv.Env(ctx)
    f = make(ctx, 'A', True, [40 - 7 * k for k in range(nt)], 'b', 2, sym=False)
    name = env.write('f.fits', f)
    first = [None, 0, 1, nt - 1, nt, nt + 1][ctx.choice('first', 6)]
    n = [None, 1, nt, nt + 1][ctx.choice('n', 4)]
    s = first or 0
    ok = s <= nt and s + (n if n is not None else 0) <= nt
    if s >= nt and (n is None or not n):
        return ctx.cover('done')
    try:
        d = env.desi.DistTargetsDESI([name], coadd=False, first_target=first, n_target=n)
    except RuntimeError:
        ctx.check(not ok, 'a range inside the file is accepted', f'{first} {n} of {nt}')
        return
    ctx.check(ok, 'a range beyond the file is refused', f'{first} {n}')
    want = f['ids'][s:][:n]
    ctx.check([int(t) for t in d.all_target_ids] == want, 'targets of the range', f'{first} {n}')
    ctx.check([int(t) for t in d.fibermap['TARGETID']] == want, 'fibermap of the range')
    ctx.cover('done')


def configs(tier):
    th = tier == 'thorough'
    c = []

    def add(name, fn, bounds, w=3, validate=3, **params):
        c.append(dict(name=name, fn=fn, params=params, bounds=bounds, cover=['done'], validate=validate, weight=w))

    def F(coadded, ids, bands, npix=2, **k):
        return dict(coadded=coadded, ids=ids, bands=bands, npix=npix, **k)
    add('coadded', h_read, '2 targets, 2 bands, all fluxes and ivars', files=[F(True, [9, 4], 'br')])
    add('special', h_read, '2 targets, NaN or infinity anywhere', files=[F(True, [9, 4], 'b', special=1)], w=6)
    add('mask', h_read, '2 targets, masks in one of two bands', files=[F(True, [9, 4], 'br', mask='r')])
    add('masknan', h_read, 'masks and invalid values', files=[F(True, [9], 'b', mask='b', special=1)], w=6)
    add('exposures', h_read, 'uncoadded, 2 targets, 3 exposures interleaved', files=[F(False, [9, 4, 9], 'zb', 1 + 1, mask='b')])
    add('resolution', h_read, '3 diagonals', files=[F(True, [9, 4, 6], 'b', 4, ndiag=3, sym=False)])
    add('bandnames', h_read, 'bands of other instruments, b last', files=[F(True, [9, 4], ['nir1', 'brz', 'b'], mask=('nir1',))])
    add('two_files', h_read, '2 files, a target in both, other bands and order', files=[F(True, [9, 4], 'br'), F(True, [7, 9], 'rb', last=True)])
    add('mixed', h_read, 'coadded and uncoadded file, invalid values', files=[F(True, [9, 4], 'b'), F(False, [4, 7, 4], 'b', special=1, sym=False)], w=5)
    add('onlybands', h_read, 'files with different bands', files=[F(True, [9, 4], 'b'), F(True, [9, 4], 'r')])
    for k, sel in enumerate([[4], [9, 4], [6, 9], [6]]):
        add(f'ids{k}', h_read, f'3 targets, ids {sel} selected', files=[F(True, [9, 4, 6], 'b')], targetids=sel)
    add('ids_files', h_read, 'ids selected from 2 files', files=[F(False, [9, 4, 9, 6], 'b'), F(False, [6, 6, 3], 'b')], targetids=[6, 9])
    for k, sel in enumerate([[-2], [-1, 5], [0]]):
        add(f'negative{k}', h_read, f'negative ids and 0 in 2 files, {sel} selected', files=[F(True, [5, -1, 0, -2], 'b'), F(False, [-2, 0, -2, -7], 'b')], targetids=sel)
    add('ids_first_none', h_read, 'a file without selected targets comes first', files=[F(True, [5, 4], 'b'), F(False, [6, 9, 6], 'b', sym=False), F(True, [9], 'b', sym=False)], targetids=[6, 9])
    add('ids_middle_none', h_read, '2 ranks, a file without selected targets between two', files=[F(False, [6, 9], 'b'), F(True, [5, 4], 'br', sym=False), F(False, [9, 6, 3], 'b', sym=False)], targetids=[6, 9], size=2)
    add('negative_first', h_read, 'a file of negative ids comes first', files=[F(True, [-5, -4], 'b', sym=False), F(True, [6, 9], 'b')])
    add('negative', h_read, 'negative ids, 2 ranks', files=[F(True, [5, -1, -2], 'b')], size=2)
    for k, (a, b) in enumerate([(0, 1), (1, 1), (1, None), (2, None), (None, 2)]):
        add(f'range{k}', h_read, f'3 targets, first {a}, number {b}', files=[F(False, [9, 4, 9, 6], 'b')], first=a, n=b)
    add('range_files', h_read, 'the range applies in each file', files=[F(True, [9, 4, 6], 'b'), F(True, [5, 9, 3], 'b')], first=1, n=1)
    add('ranges', h_range, '3 targets, any first and number', nt=3)
    for s in (1, 2, 3):
        add(f'mpi{s}', h_read, f'{s} ranks, any order', files=[F(False, [9, 4, 9, 6], 'br', mask='b')], size=s, w=6)
    add('mpi2_files', h_read, '2 ranks, 2 files', files=[F(True, [9, 4], 'b', special=1, sym=False), F(True, [4, 5], 'b', mask='b')], size=2, w=6)
    add('mpi2_ids', h_read, '2 ranks, ids selected', files=[F(True, [9, 4, 6], 'b')], size=2, targetids=[9, 6])
    add('batch', h_read, '3 rows sent in batches of 2 (batch size scaled down)', files=[F(True, [9, 4, 6], 'b', 4, ndiag=3, sym=False)], size=2, batch=2)
    add('batch5', h_read, '5 rows in batches of 2', files=[F(False, [9, 4, 6, 9, 4], 'b', 4, ndiag=3, sym=False)], size=2, batch=2)
    add('capacities', h_read, '2 ranks of unequal capacity', files=[F(True, [9, 4, 6], 'b')], size=2, caps=[1, 0.0001])
    add('many', h_read, '150 rows, 60 targets, 3 ranks', files=[F(False, [9 + (i * 17) % 60 for i in range(150)], 'b', sym=False)], size=3, w=6)
    add('many_ids', h_read, '2 files of 60 rows, 25 targets selected', files=[F(True, list(range(100, 40, -1)), 'b', sym=False), F(True, list(range(60, 120)), 'b', sym=False)],
        targetids=list(range(50, 75)), w=6)
    add('coadd', h_read, 'coadd of 3 exposures, 2 bands', files=[F(False, [9, 4, 9], 'br', sym='flux')], coadd=True, w=6)
    add('coadd_files', h_read, 'coadd over 2 files', files=[F(True, [9, 4], 'b'), F(True, [4, 9], 'b', mask='b')], coadd=True, w=6)
    add('coadd_mpi', h_read, 'coadd on 2 ranks', files=[F(False, [9, 4, 9], 'b', special=1, sym=False)], coadd=True, size=2, w=6)
    if th:
        add('big', h_read, '4 targets, 6 rows, 3 bands, masks, NaN, 2 ranks', files=[F(False, [9, 4, 9, 6, 1, 4], 'zrb', mask='rz', special=1, sym=False)], size=2, w=20)
        add('mpi4', h_read, '4 ranks', files=[F(False, [9, 4, 9, 6], 'b', mask='b'), F(True, [1, 9], 'br')], size=4, w=20)
        add('special2', h_read, '2 bands, NaN anywhere in each', files=[F(True, [9, 4], 'br', special=1, sym=False)], w=20)
    return c
