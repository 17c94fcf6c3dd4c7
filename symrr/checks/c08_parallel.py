"""C08: the scan and the final table do not depend on processes, ranks, redshift slices or schedule."""
import numpy as np

from .. import fakes, lib, par

PROPERTY = 'C08'
ASSUMPTIONS = ['MPI and multiprocessing are models: messages are copied, sends and collectives block as the standard '
               'allows, ranks and queue producers are interleaved by decisions of the exploration; children run to '
               'completion when started',
               'template rebinning is replaced by arbitrary per-redshift template values (C01 covers rebinning)']
HUGE = lib.HUGE


# real ids have 17 digits: neighbours are the same number in double precision
BASE = 39627788000000000


def mk_targets(ctx, specs, bands=('b', 'r'), masked=None):
    """targets with the given number of 2-pixel spectra; flux symbolic"""
    T = ctx.rr.targets
    out = []
    for k, (tid, ns) in enumerate(specs):
        sp = []
        for j in range(ns):
            w = [3600.0, 3601.0] if j % 2 == 0 else [5000.0, 5001.0]
            iv = ctx.arr([0.0, 0.0] if k == masked else [1.0 + k, 2.0 + j])
            sp.append(lib.spectrum(ctx, f't{k}s{j}', w, band=bands[j % 2], ivar=iv,
                                   flux=ctx.reals(f't{k}s{j}f', 2, -100, 100)))
        out.append(T.Target(tid, sp, meta=dict(NUM=k)))
    return out


def tvals(nz):
    """template value at redshift number i, wavelength j, band b, distinct everywhere"""
    return lambda b, i, j: 1.0 + 0.5 * i + (0.25 if j else 0.0) * (i + 1) + (0.125 if b == 'r' else 0.0)


class Tmpl(lib.Template):
    pass


def mk_template(ctx, nz, name='GALAXY', scale=1.0):
    zs = [0.25 + 0.5 * i for i in range(nz)]
    t = lib.template(ctx, np.array(zs), 1, name)
    t.zs, t.scale = zs, scale
    return t


def patch_rebin(ctx):
    val = tvals(0)

    def rebin(template, myz, dwave, use_gpu=False, **k):
        out = {}
        zl = [float(z) for z in np.asarray(myz).reshape(-1)]
        for b, w in dwave.items():
            out[b] = ctx.arr([[[val(b, template.zs.index(z), j) * template.scale] for j in range(len(w))]
                              for z in zl]) if zl else ctx.zeros((0, len(w), 1))
        return out
    rr = ctx.rr
    rr.patch('templates', 'rebin_template', rebin)
    rr.patch('templates', 'transmission_Lyman', lambda *a, **k: None)


def expected(ctx, target, template):
    """chi2 and coefficient of the only basis vector at every redshift, from the definition"""
    val = tvals(0)
    chi, co = [], []
    for i in range(len(template.zs)):
        if target['masked']:
            chi.append(HUGE)
            co.append(0)
            continue
        M, y, ff = 0, 0, 0
        for k, s in enumerate(target['sp']):
            for j in range(2):
                tv = ctx.const(val(s['band'], i, j) * template.scale)
                w, f = s['ivar'][j], s['flux'][j]
                M, y, ff = M + w * tv * tv, y + w * tv * f, ff + w * f * f
        chi.append(ff - y * y / M)
        co.append(y / M)
    return chi, co


def snapshot(ctx, tgs, masked=None):
    return {t.id: dict(masked=masked is not None and tgs[masked] is t, sp=[dict(band=s.band, ivar=list(s.ivar), flux=list(s.flux)) for s in t.spectra]) for t in tgs}


def check_results(ctx, res, ids, snap, tmpls):
    ctx.check(sorted(res.keys()) == sorted(ids), 'results for exactly the local targets')
    for tid in ids:
        ctx.check(sorted(res[tid].keys()) == sorted(t.full_type for t in tmpls), 'results for every template')
        for t in tmpls:
            r = res[tid][t.full_type]
            chi, co = expected(ctx, snap[tid], t)
            ctx.eq(list(r['redshifts']), t.zs, 'the full redshift grid, in order')
            ctx.check(len(r['zchi2']) == len(t.zs) and len(r['zcoeff']) == len(t.zs) and len(r['penalty']) == len(t.zs),
                      'one result per redshift')
            ctx.eq(r['zchi2'], chi, 'chi2 of that target at that redshift')
            ctx.eq([r['zcoeff'][i][0] for i in range(len(t.zs))], co, 'coefficients of that target at that redshift')
            ctx.eq(r['penalty'], [0] * len(t.zs), 'penalty zero for templates without an [OII] template')


def h_local(ctx, mp_procs, ntarg, nz, nsmax, ntmpl=1, mask=False):
    """without MPI: any number of worker processes"""
    specs = [([BASE + 7, BASE + 1, -3][k], 1 + ctx.choice(f'ns{k}', nsmax)) for k in range(ntarg)]
    par.fake_mp(ctx)
    patch_rebin(ctx)
    masked = ctx.choice('masked', ntarg) if mask else None
    tgs = mk_targets(ctx, specs, masked=masked)
    snap = snapshot(ctx, tgs, masked)
    dt = ctx.rr.targets.DistTargetsCopy(tgs)
    dwave = dt.wavegrids()
    tm = [mk_template(ctx, nz), mk_template(ctx, max(1, nz - 1), 'QSO', 2.0)][:ntmpl]
    dts = [ctx.rr.templates.DistTemplate(t, dwave, mp_procs=mp_procs) for t in tm]
    res = ctx.rr.zscan.calc_zchi2_targets(dt, dts, mp_procs=mp_procs)
    ctx.check(sorted(dt.all_target_ids) == sorted(t for t, _ in specs), 'all targets known')
    ids, local = dt.local_target_ids(), dt.local()
    ctx.check([t.id for t in local] == list(ids), 'local ids in the order of the local targets')
    check_results(ctx, res, [t for t, _ in specs], snap, tm)
    ctx.cover('done')


def h_mpi(ctx, size, ntarg, nz, ntmpl, sched, nsmax=2, mask=False):
    """MPI: any rank order, redshift slices cycling around"""
    specs = [([BASE + 7, BASE + 1, -3, BASE + 2][k], 1 + ctx.choice(f'ns{k}', nsmax)) for k in range(ntarg)]
    patch_rebin(ctx)
    masked = ctx.choice('masked', ntarg) if mask else None
    tgs = mk_targets(ctx, specs, masked=masked)
    snap = snapshot(ctx, tgs, masked)
    tm = [mk_template(ctx, nz), mk_template(ctx, max(1, nz - 1), 'QSO', 2.0)][:ntmpl]

    def rank(comm):
        dt = ctx.rr.targets.DistTargetsCopy(tgs, comm=comm)
        dwave = dt.wavegrids()
        dts = [ctx.rr.templates.DistTemplate(t, dwave, comm=comm) for t in tm]
        res = ctx.rr.zscan.calc_zchi2_targets(dt, dts)
        return (list(dt.local_target_ids()), [t.id for t in dt.local()], res, list(dt.all_target_ids), sorted(dwave),
                [d.local.index for d in dts])
    outs = par.run_ranks(ctx, size, rank, sched)
    allids = []
    for r, (ids, loc, res, al, dw, idx) in enumerate(outs):
        ctx.check(ids == loc, 'local ids in the order of the local targets')
        ctx.check(al == [t for t, _ in specs], 'all target ids in input order on every rank')
        ctx.check(dw == sorted({s['band'] for t in snap.values() for s in t['sp']}), 'global set of wavelength grids')
        ctx.check(idx == [r] * len(idx), 'after the scan every rank holds its own redshift slice again')
        check_results(ctx, res, ids, snap, tm)
        allids += ids
    ctx.check(sorted(allids) == sorted(t for t, _ in specs), 'every target handled by exactly one rank')
    ctx.cover('done')


# ---------------------------------------------------------------- final table

class Tg:
    def __init__(self, id, meta):
        self.id, self.meta, self.spectra = id, meta, [None]

    def sharedmem_pack(self):
        pass

    sharedmem_unpack = sharedmem_pack


class DistT:
    def __init__(self, mine, allids, comm):
        self._t, self.comm, self.all_target_ids = mine, comm, allids

    def local(self):
        return self._t

    def local_target_ids(self):
        return [t.id for t in self._t]


def fake_fit(ctx, zof):
    def fit(zchi2, redshifts, target, template, nminima=3, **k):
        z, c = zof(target.id, template.full_type, zchi2)
        one = lambda v: ctx.arr([[v]])
        return dict(z=one(z), zerr=one(0.001), zwarn=ctx.intarr([0]).reshape((1, 1)), chi2=one(c),
                    zz=ctx.arr([[z]]), zzchi2=ctx.arr([[c]]), coeff=ctx.arr([[c]]), fitmethod=np.array([['PCA']]),
                    npixels=ctx.intarr([100]).reshape((1, 1)))
    ctx.rr.patch('fitz', 'fitz', fit)
    ctx.rr.patch('zfind', 'fitz', fit)


def h_zfind_mpi(ctx, size, ntarg, sched, nmp=1):
    """the table on the root rank: every target once, input order, own values"""
    ids = [BASE + 9, BASE + 7, -11, BASE + 10][:ntarg]
    owner = [ctx.choice(f'own{k}', size) for k in range(ntarg)]
    chi = {(t, f): ctx.real(f'c{t}{f}', lo, lo + 40) for t in ids for f, lo in (('GALAXY', 0), ('QSO', 60))}
    if nmp > 1:
        par.fake_mp(ctx)
    fz = ctx.rr.zfind
    fake_fit(ctx, lambda tid, ft, zc: (0.5 if ft == 'GALAXY' else 1.5, zc[0]))

    def scan(targets, templates, mp_procs=1, use_gpu=False, **k):
        return {t.id: {tp.template.full_type: dict(
            redshifts=ctx.arr([0.1, 0.2]), zchi2=ctx.arr([chi[t.id, tp.template.full_type], 200.0]),
            penalty=ctx.arr([0.0, 0.0]), zcoeff=None) for tp in templates} for t in targets.local()}
    ctx.rr.patch('zscan', 'calc_zchi2_targets', scan)
    ctx.rr.patch('zfind', 'calc_zchi2_targets', scan)
    tm = [lib.template(ctx, ctx.arr([0.1, 0.2]), 1, 'GALAXY'), lib.template(ctx, ctx.arr([0.1, 0.2]), 1, 'QSO')]

    def rank(comm):
        r = 0 if comm is None else comm.rank
        mine = [Tg(t, dict(NUM=100 + t)) for t, o in zip(ids, owner) if o == r]
        return fz.zfind(DistT(mine, list(ids), comm), [lib.DTemplate(t, {}, comm) for t in tm], nminima=2, mp_procs=nmp)
    if nmp > 1:
        outs = [rank(None)]
    else:
        outs = par.run_ranks(ctx, size, rank, sched)
    for o in outs[1:]:
        ctx.check(tuple(o) == (None, None), 'only the root rank returns results')
    res, tab = outs[0]
    ctx.check(sorted(res.keys()) == sorted(ids), 'scan results of every target on the root rank')
    seq = [int(x) for x in tab['targetid']]
    ctx.check(seq == [t for t in ids for _ in range(2)], 'two rows per target, targets in input order')
    for i, t in enumerate(seq):
        ft = str(tab['spectype'][i])
        ctx.eq(tab['chi2'][i], chi[t, ft], 'row belongs to that target')
        ctx.check(int(tab['NUM'][i]) == 100 + t, 'metadata belongs to that target')
        ctx.eq(res[t][ft]['zchi2'], [chi[t, ft], 200.0], 'scan belongs to that target')
    ctx.cover('done')


def h_batch(ctx, n1):
    """rank 1 ships many targets to the root rank"""
    n1 = n1[ctx.choice('n1', len(n1))]
    ids = list(range(BASE, BASE + n1)) + [5]
    got = {}
    patchfind(ctx)

    def rank(comm):
        fz = ctx.rr.zfind
        mine = [Tg(5, {})] if comm.rank == 0 else [Tg(t, {}) for t in ids[:-1]]
        return fz.zfind(DistT(mine, list(ids), comm), [lib.DTemplate(t, {}, comm) for t in tmpl], nminima=1)
    tmpl = [lib.template(ctx, np.array([0.1, 0.2]), 1, 'GALAXY')]
    res, tab = par.run_ranks(ctx, 2, rank, 'fixed')[0]
    ctx.check(sorted(res.keys()) == sorted(ids), 'all batches arrive')
    ctx.check([int(x) for x in tab['targetid']] == ids, 'every target in the table')
    for i, t in enumerate(ids):
        if float(tab['chi2'][i]) != t + 0.5:
            ctx.fail('row belongs to that target')
    ctx.cover('done')


def patchfind(ctx):
    def fit(zchi2, redshifts, target, template, nminima=3, **k):
        one = lambda v: np.array([[v]])
        return dict(z=one(0.5), zerr=one(0.001), zwarn=one(0), chi2=one(target.id + 0.5), zz=one(0.1), zzchi2=one(0.1),
                    coeff=one(0.1), fitmethod=np.array([['PCA']]), npixels=one(100))
    ctx.rr.patch('fitz', 'fitz', fit)
    ctx.rr.patch('zfind', 'fitz', fit)

    def scan(targets, templates, mp_procs=1, use_gpu=False, **k):
        return {t.id: {tp.template.full_type: dict(redshifts=np.array([0.1, 0.2]), zchi2=np.array([1.0, 2.0]),
                                                   penalty=np.array([0.0, 0.0]), zcoeff=None)
                       for tp in templates} for t in targets.local()}
    ctx.rr.patch('zscan', 'calc_zchi2_targets', scan)
    ctx.rr.patch('zfind', 'calc_zchi2_targets', scan)


def h_scanfile(ctx, size):
    """--chi2-scan: a stored scan of all targets, targets spread over the ranks"""
    ids = [BASE + 9, BASE + 6, -7]
    owner = [ctx.choice(f'own{k}', size) for k in range(3)]
    chi = {t: ctx.real(f'c{t}', 0, 100) for t in ids}
    fz = ctx.rr.zfind
    fake_fit(ctx, lambda tid, ft, zc: (0.5, zc[0]))

    def read(fn):
        return {t: {'GALAXY': dict(redshifts=ctx.arr([0.1, 0.2]), zchi2=ctx.arr([chi.get(t, 3.0), 200.0]),
                                   penalty=ctx.arr([0.0, 0.0]), zcoeff=None)} for t in [BASE + 10, ids[1], ids[2], ids[0], BASE + 5]}
    ctx.rr.patch('results', 'read_zscan_redrock', read)
    ctx.rr.patch('zfind', 'read_zscan_redrock', read)
    tm = lib.template(ctx, ctx.arr([0.1, 0.2]), 1, 'GALAXY')

    def rank(comm):
        r = 0 if comm is None else comm.rank
        mine = [Tg(t, {}) for t, o in zip(ids, owner) if o == r]
        return fz.zfind(DistT(mine, list(ids), comm), [lib.DTemplate(tm, {}, comm)], nminima=1, chi2_scan='x.h5')
    outs = par.run_ranks(ctx, size, rank, 'order') if size > 1 else [rank(None)]
    res, tab = outs[0]
    ctx.check([int(x) for x in tab['targetid']] == ids, 'every target in the table, in order')
    ctx.eq(list(tab['chi2']), [chi[t] for t in ids], 'values from the stored scan of that target')
    ctx.cover('done')


def h_fault(ctx, stage):
    """a worker process fails on one target: the run must end with an error, not wait forever"""
    bad = ctx.choice('bad', 2)
    par.fake_mp(ctx, reorder=False)
    ids = [BASE + 7, BASE + 6]

    class Boom(Exception):
        pass
    tm = mk_template(ctx, 2)
    if stage == 'scan':
        patch_rebin(ctx)
        tgs = mk_targets(ctx, [(70, 1), (8, 1)])
        dt = ctx.rr.targets.DistTargetsCopy(tgs)
        dts = [ctx.rr.templates.DistTemplate(tm, dt.wavegrids(), mp_procs=2)]
        orig = ctx.rr.zscan.spectral_data
        n = [0]

        def spectral(spectra):
            n[0] += 1
            if n[0] == 1 + bad:
                raise Boom('fault')
            return orig(spectra)
        ctx.rr.patch('zscan', 'spectral_data', spectral)
        call = lambda: ctx.rr.zscan.calc_zchi2_targets(dt, dts, mp_procs=2)
    else:
        patchfind(ctx)
        n = [0]

        def fit(*a, **k):
            n[0] += 1
            if n[0] == 1 + bad:
                raise Boom('fault')
            return orig(*a, **k)
        orig = ctx.rr.zfind.fitz
        ctx.rr.patch('fitz', 'fitz', fit)
        ctx.rr.patch('zfind', 'fitz', fit)
        call = lambda: ctx.rr.zfind.zfind(DistT([Tg(t, {}) for t in ids], ids, None), [lib.DTemplate(tm, {})],
                                          nminima=1, mp_procs=2)
    try:
        call()
        ctx.fail('a failed worker must not go unnoticed')
    except par.Deadlock:
        ctx.fail('a failed worker must not leave the run waiting forever')
    except Exception:
        pass
    ctx.cover('done')


def configs(tier):
    th = tier == 'thorough'
    c = []

    def add(name, fn, bounds, cover=('done',), w=1, **params):
        c.append(dict(name=name, fn=fn, params=params, bounds=bounds, cover=list(cover), validate=3, weight=w))
    add('local1', h_local, '3 targets of 1 or 2 spectra, 1 process, 2 redshifts', w=3, mp_procs=1, ntarg=3, nz=2, nsmax=2)
    add('local2', h_local, '3 targets of 1 or 2 spectra, 2 worker processes, any completion order', w=5, mp_procs=2,
        ntarg=3, nz=2, nsmax=2)
    add('local3', h_local, '3 targets, 3 worker processes, 2 templates', w=8, mp_procs=3, ntarg=3, nz=2, nsmax=2, ntmpl=2)
    add('local4', h_local, 'more worker processes than targets', w=2, mp_procs=4, ntarg=2, nz=1, nsmax=2)
    add('local2_masked', h_local, '2 worker processes, a target without valid pixels', w=5, mp_procs=2, ntarg=3, nz=2, nsmax=1, mask=True)
    add('mpi2_masked', h_mpi, '2 ranks, a target without valid pixels', w=5, size=2, ntarg=3, nz=3, ntmpl=2, sched='order', nsmax=1, mask=True)
    add('mpi2', h_mpi, '2 ranks, 3 targets, 3 redshifts, 2 templates, both static rank orders', w=6, size=2, ntarg=3, nz=3,
        ntmpl=2, sched='order')
    add('mpi3', h_mpi, '3 ranks, 3 targets, 4 redshifts, all static rank orders', w=7, size=3, ntarg=3, nz=4, ntmpl=1,
        sched='order')
    add('mpi3_fewz', h_mpi, '3 ranks, 2 targets, 2 redshifts (an empty slice, an idle rank)', w=5, size=3, ntarg=2, nz=2,
        ntmpl=2, sched='order')
    add('mpi12', h_mpi, '12 ranks, 2 targets, 13 redshifts, one schedule', w=5, size=12, ntarg=2, nz=13, ntmpl=1, sched='fixed', nsmax=1)
    if th:
        add('mpi2_free', h_mpi, '2 ranks, 2 targets, 2 redshifts, every interleaving', w=20, size=2, ntarg=2, nz=2, ntmpl=1,
            sched='free', nsmax=1)
        add('mpi4', h_mpi, '4 ranks, 4 targets, 5 redshifts', w=9, size=4, ntarg=4, nz=5, ntmpl=1, sched='order', nsmax=1)
    add('table_mpi2', h_zfind_mpi, '2 ranks, 3 targets, any ownership', w=4, size=2, ntarg=3, sched='order')
    add('table_mpi3', h_zfind_mpi, '3 ranks, 2 targets, any ownership', w=4, size=3, ntarg=2, sched='order')
    add('table_mp', h_zfind_mpi, '3 targets, 2 worker processes', w=3, size=1, ntarg=3, sched='order', nmp=2)
    nn = [4999, 5000, 5001, 9999, 10000, 10001] if th else [5000, 5001]
    add('batches', h_batch, f'rank 1 holding any of {nn} targets', w=9, n1=nn)
    add('scanfile1', h_scanfile, 'stored scan, no MPI', size=1)
    add('scanfile2', h_scanfile, 'stored scan, 2 ranks, any ownership', size=2)
    add('scanfile3', h_scanfile, 'stored scan, 3 ranks, any ownership', size=3)
    add('fault_scan', h_fault, 'one of 2 workers fails during the scan', stage='scan')
    add('fault_fit', h_fault, 'one of 2 workers fails during the fit', stage='fit')
    return c
