"""C10: distributed templates: slices cover the redshift grid and hold rebinned template x IGM transmission."""
import numpy as np

from .. import lib, par
from .c01_rebin import binavg

PROPERTY = 'C10'
ASSUMPTIONS = ['the IGM transmission is an arbitrary function of redshift, wavelength and model (C13 covers its values)',
               'the MPI model of C08']


GRIDS = {'b': [3.5, 4.0, 4.5], 'r': [6.0, 6.5]}          # 'red' configurations meet them in the other order


def oracle_edges(g):
    n = len(g)
    return [g[0] - (g[1] - g[0]) / 2] + [(g[i] + g[i + 1]) / 2 for i in range(n - 1)] + [g[n - 1] + (g[n - 1] - g[n - 2]) / 2]


def setup(ctx, nz, nb, model, trans):
    w = ctx.arr([2, 3, 4, 6, 9])
    zs = [min(0.25, 1 / 64 if nz > 4 else 1) * i for i in range(nz)]
    t = lib.template(ctx, np.array(zs), nb, igm_model=model, wave=w, flux=ctx.reals('f', (nb, 5)), minwave=w[0], maxwave=w[-1])
    t.zs = zs
    tr = {}

    def T(z, lam):
        k = (round(float(z), 6), round(float(lam), 6))
        if k not in tr:
            tr[k] = ctx.real('T%g_%g' % k, 0, 1)
        return tr[k]
    calls = []

    def trans_fn(zObj, lObs, use_gpu=False, model='default', always_return_array=True):
        calls.append(model)
        lam = [float(x) for x in lObs]
        zl = [float(z) for z in zObj]
        if trans == 'none' or (trans in ('blue', 'blue_last') and lam[0] > 5):
            return None if not always_return_array else ctx.arr([[1.0] * len(lam) for _ in zl])
        return ctx.arr([[T(z, x) for x in lam] for z in zl])
    ctx.rr.patch('templates', 'transmission_Lyman', trans_fn)
    exp = {}
    if True:
        for k, g in GRIDS.items():
            ee = [ctx.const(e) for e in oracle_edges(g)]
            for z in zs:
                for i in range(len(g)):
                    tt = 1 if trans == 'none' or (trans in ('blue', 'blue_last') and g[0] > 5) else T(z, g[i])
                    for b in range(nb):
                        exp[k, z, i, b] = binavg(ctx, w * (1 + ctx.const(z)), t.flux[b], ee[i], ee[i + 1]) * tt
    order = list(GRIDS.items())
    return t, {k: ctx.arr(g) for k, g in (order[::-1] if trans == 'blue_last' else order)}, exp, calls


def check_piece(ctx, p, t, exp, nb):
    zl = [float(z) for z in p.redshifts]
    if not zl:
        return zl
    ctx.check(sorted(p.data.keys()) == sorted(GRIDS), 'one array per wavelength grid')
    for k, g in GRIDS.items():
        ctx.check(p.data[k].shape == (len(zl), len(g), nb), 'shape (nz, nwave, nbasis)')
        for iz, z in enumerate(zl):
            for i in range(len(g)):
                for b in range(nb):
                    ctx.eq(p.data[k][iz, i, b], exp[k, z, i, b], 'rebinned template times IGM transmission')
    return zl


def h_serial(ctx, nz, nb, trans, model):
    t, dwave, exp, calls = setup(ctx, nz, nb, model, trans)
    f0 = t.flux.copy()
    d = ctx.rr.templates.DistTemplate(t, dwave)
    ctx.check(check_piece(ctx, d.local, t, exp, nb) == t.zs, 'the whole redshift grid, in order')
    ctx.check(d.local.index == 0 and d.template is t and d.comm is None, 'attributes')
    ctx.check(d.cycle() is True, 'one process holds everything: done after one slice')
    ctx.check(all(m == model for m in calls) and calls, 'the IGM model of the template')
    ctx.eq(t.flux, f0, 'the template itself is unchanged')
    ctx.cover('done')


def h_mpi(ctx, size, nz, nb, trans, sched):
    t, dwave, exp, calls = setup(ctx, nz, nb, 'Inoue14', trans)

    def rank(comm):
        d = ctx.rr.templates.DistTemplate(t, dwave, comm=comm)
        seen = []
        for turn in range(2):
            done = False
            n = 0
            while not done:
                seen.append((d.local.index, d.local.redshifts, d.local.data))
                done = d.cycle()
                n += 1
                if n > size:
                    break
            seen.append(None)
        return seen
    outs = par.run_ranks(ctx, size, rank, sched)
    for r, seen in enumerate(outs):
        for turn in range(2):
            k = seen.index(None)
            part, seen = seen[:k], seen[k + 1:]
            ctx.check(len(part) == size and part[0][0] == r, 'each turn starts with the own slice and visits one slice per rank')
            ctx.check(sorted(p[0] for p in part) == list(range(size)), 'every slice is visited exactly once')
            allz = []
            for idx, zz, data in sorted(part, key=lambda p: p[0]):
                allz += check_piece(ctx, lib.LocalSlice(idx, zz, data), t, exp, nb)
            ctx.check(allz == t.zs, 'slices in index order are the redshift grid')
    ctx.cover('done')


def h_scan_fewz(ctx, size, nz):
    """more ranks than redshifts: the scan still covers each redshift once"""
    t, dwave, exp, calls = setup(ctx, nz, 1, 'None', 'none')
    T = ctx.rr.targets
    sp = [lib.spectrum(ctx, 's', GRIDS['r'], band='r', ivar=ctx.arr([1.0, 2.0])),
          lib.spectrum(ctx, 'q', GRIDS['b'], band='b', ivar=ctx.arr([1.0, 1.0, 0.0]))]
    tg = T.Target(4, sp)

    def rank(comm):
        d = T.DistTargetsCopy([tg], comm=comm)
        dt = ctx.rr.templates.DistTemplate(t, d.wavegrids(), comm=comm)
        return ctx.rr.zscan.calc_zchi2_targets(d, [dt])
    outs = par.run_ranks(ctx, size, rank, 'order')
    res = {k: v for o in outs for k, v in o.items()}
    ctx.check(list(res) == [4], 'the target is scanned by one rank')
    r = res[4][t.full_type]
    ctx.check(len(r['zchi2']) == nz and len(r['zcoeff']) == nz, 'one result per redshift')
    for iz, z in enumerate(t.zs):
        M, y = 0, 0
        for s, k in ((sp[0], 'r'), (sp[1], 'b')):
            for i in range(len(GRIDS[k])):
                tv = exp[k, z, i, 0]
                M, y = M + s.ivar[i] * tv * tv, y + s.ivar[i] * tv * s.flux[i]
        ctx.eq(r['zcoeff'][iz][0] * M, y, 'coefficient at that redshift')
    ctx.cover('done')


def configs(tier):
    th = tier == 'thorough'
    c = []

    def add(name, fn, bounds, cover=('done',), w=1, **params):
        c.append(dict(name=name, fn=fn, params=params, bounds=bounds, cover=list(cover), validate=3, weight=w))
    for tr in ('all', 'blue', 'blue_last', 'none'):
        add('serial_' + tr, h_serial, f'2 redshifts, 2 basis vectors, 2 grids, symbolic flux, transmission: {tr}', w=3,
            nz=2, nb=2, trans=tr, model='Kamble20')
    add('serial_1z', h_serial, 'a single redshift', nz=1, nb=1, trans='all', model='Inoue14')
    add('mpi2', h_mpi, '2 ranks, 3 redshifts, two turns', w=4, size=2, nz=3, nb=1, trans='blue', sched='order')
    add('mpi3', h_mpi, '3 ranks, 3 redshifts, two turns', w=5, size=3, nz=3, nb=1, trans='blue_last', sched='order')
    add('mpi2_free', h_mpi, '2 ranks, every interleaving', w=5, size=2, nz=2, nb=1, trans='blue', sched='free')
    add('mpi_many', h_mpi, '3 ranks, 40 redshifts, two turns', w=5, size=3, nz=40, nb=1, trans='blue', sched='order')
    add('mpi_fewz', h_mpi, '3 ranks, 2 redshifts: an empty slice', w=4, size=3, nz=2, nb=1, trans='all', sched='order')
    add('scan_fewz', h_scan_fewz, 'scan with 3 ranks and 2 redshifts', w=4, size=3, nz=2)
    if th:
        add('mpi3_free', h_mpi, '3 ranks, every interleaving', w=30, size=3, nz=3, nb=1, trans='blue', sched='free')
        add('mpi4', h_mpi, '4 ranks, 3 redshifts', w=20, size=4, nz=3, nb=2, trans='all', sched='order')
    return c
