"""C09: work distribution is a balanced partition."""
import numpy as np

from .. import lib, par

PROPERTY = 'C09'
ASSUMPTIONS = ['weights are non-negative and capacities positive reals']


def partition(ctx, dist, ids, nproc):
    ctx.check(len(dist) == nproc, 'one list per process')
    flat = [x for d in dist for x in d]
    ctx.check(sorted(flat) == sorted(ids), 'every id is assigned to exactly one process')


def balance(ctx, dist, w, cap):
    load = [sum([w[x] for x in d], 0) for d in dist]
    for p in range(len(dist)):
        if not dist[p]:
            continue
        mn = w[dist[p][0]]
        for x in dist[p][1:]:
            mn = ctx.min(mn, w[x])
        for q in range(len(dist)):
            if p != q:
                # load_p / c_p <= (load_q + smallest unit of p) / c_q
                a, b = load[p] * cap[q], (load[q] + mn) * cap[p]
                if ctx.symbolic:
                    ctx.check(a <= b, 'moving a unit of work to another process would not finish it earlier')
                else:
                    ctx.check(a <= b + 1e-9 * (1 + abs(b)), 'moving a unit of work to another process would not finish it earlier')


def h_work(ctx, n, nproc, mode):
    ids = [39627788000000000 + 5 - k for k in range(n)]
    kw = {}
    w, cap = {i: 1 for i in ids}, [1] * nproc
    if 'w' in mode:
        w = {i: ctx.real(f'w{k}', 0, 100) for k, i in enumerate(ids)}
        kw['weights'] = dict(w)
    if 'c' in mode:
        if 'w' in mode:
            cap = [[1, 0.25, 3, 0.0001][ctx.choice(f'cap{k}', 4)] for k in range(nproc)]
        else:
            cap = [ctx.real(f'cap{k}', 0.001, 10) for k in range(nproc)]
        kw['capacities'] = list(cap)
    dist = ctx.rr.utils.distribute_work(nproc, list(ids), **kw)
    partition(ctx, dist, ids, nproc)
    balance(ctx, dist, w, [ctx.const(c) if isinstance(c, (int, float)) else c for c in cap])
    ctx.cover('done')


def h_gpu(ctx, n, ngpu, ncpu):
    """GPU ranks have capacity 1, others 1/10000: only the GPU ranks get targets"""
    w = {i: ctx.int(f'w{i}', 1, 60) for i in range(n)}
    gpu = [ctx.flag(f'g{k}') for k in range(ngpu + ncpu)]
    ctx.assume(sum(gpu) == ngpu)
    dist = ctx.rr.utils.distribute_work(ngpu + ncpu, list(range(n)), weights=w,
                                        capacities=[1 if g else 1.0 / 10000 for g in gpu])
    partition(ctx, dist, range(n), ngpu + ncpu)
    for d, g in zip(dist, gpu):
        if not g:
            ctx.check(not d, 'ranks without a GPU get no targets')
    ctx.cover('done')


def h_targets(ctx, n, nproc):
    """targets are weighted by their number of spectra"""
    T = ctx.rr.targets
    ns = [ctx.choice(f'ns{k}', 3) for k in range(n)]
    tg = [T.Target(100 - k, [lib.spectrum(ctx, f's{k}{j}', [3600.0, 3601.0], band='b') for j in range(m)])
          for k, m in enumerate(ns)]
    dist = T.distribute_targets(tg, nproc)
    ids = [t.id for t in tg]
    partition(ctx, dist, ids, nproc)
    balance(ctx, dist, {t.id: len(t.spectra) for t in tg}, [1] * nproc)
    ctx.cover('done')


def h_targets_many(ctx, n, nproc):
    """hundreds of targets, the weight of one of them arbitrary"""
    ids = [39627788000000000 + 5 - k for k in range(n)]
    w = {i: 1 + (k * 7) % 3 for k, i in enumerate(ids)}
    w[ids[17]] = ctx.int('w', 0, 3)
    dist = ctx.rr.utils.distribute_work(nproc, list(ids), weights=dict(w))
    partition(ctx, dist, ids, nproc)
    balance(ctx, dist, w, [1] * nproc)
    ctx.cover('done')


def h_copy(ctx, n, size, root, only=None):
    """targets copied from one rank: each rank gets its own share, aligned with its ids"""
    T = ctx.rr.targets
    ns = [1 + ctx.choice(f'ns{k}', 2) for k in range(n)]
    tgs = [T.Target(100 - k, [lib.spectrum(ctx, f's{k}{j}', [3600.0, 3601.0], band='b') for j in range(m)], meta=dict(K=k))
           for k, m in enumerate(ns)]
    fl = {t.id: [list(s.flux) for s in t.spectra] for t in tgs}
    ids = [t.id for t in tgs]

    def rank(comm):
        # the other ranks may have the same targets, or none
        mine = tgs if comm is None or comm.rank == root or only is None else only
        d = T.DistTargetsCopy(mine, comm=comm, root=root)
        return d.all_target_ids, d.local_target_ids(), d.local()
    outs = par.run_ranks(ctx, size, rank, 'order') if size else [rank(None)]
    got = []
    for al, loc, data in outs:
        ctx.check(list(al) == ids, 'global ids in input order on every rank')
        ctx.check(list(loc) == [t.id for t in data], 'local ids aligned with local data')
        got.append(list(loc))
        for t in data:
            ctx.check(len(t.spectra) == len(fl[t.id]), 'all spectra of the target')
            ctx.eq([list(s.flux) for s in t.spectra], fl[t.id], 'data of that target')
            ctx.check(t.meta == dict(K=100 - t.id), 'metadata of that target')
    partition(ctx, got, ids, len(outs))
    balance(ctx, got, {t: len(fl[t]) for t in ids}, [1] * len(got))
    ctx.cover('done')


def configs(tier):
    th = tier == 'thorough'
    c = []

    def add(name, fn, bounds, cover=('done',), w=1, **params):
        c.append(dict(name=name, fn=fn, params=params, bounds=bounds, cover=list(cover), validate=3, weight=w))
    add('plain', h_work, '5 ids, 3 processes, no weights', n=5, nproc=3, mode='')
    add('plain_many', h_work, '300 ids, 7 processes, no weights', n=300, nproc=7, mode='')
    add('targets_many', h_targets_many, '300 targets of 1-3 spectra, 7 processes, one target of any size', n=300, nproc=7)
    add('none', h_work, 'no ids', n=0, nproc=2, mode='')
    add('weights2', h_work, '4 ids of any weight, 2 processes', w=5, n=4, nproc=2, mode='w')
    add('weights3', h_work, '4 ids of any weight, 3 processes', w=7, n=4, nproc=3, mode='w')
    add('capacity2', h_work, '4 ids, 2 processes of any capacity', w=3, n=4, nproc=2, mode='c')
    add('capacity3', h_work, '3 ids, 3 processes of any capacity', w=5, n=3, nproc=3, mode='c')
    add('both', h_work, '3 ids of any weight, 2 processes with capacity from {1, 1/4, 3, 1/10000}', w=6, n=3, nproc=2,
        mode='wc')
    add('gpu', h_gpu, '4 targets, 1 GPU and 2 CPU ranks in any arrangement', w=5, n=4, ngpu=1, ncpu=2)
    add('targets', h_targets, '4 targets of 0-2 spectra, 2 processes', w=3, n=4, nproc=2)
    add('copy0', h_copy, '4 targets, no MPI', n=4, size=0, root=0)
    add('copy2', h_copy, '4 targets of 1-2 spectra, 2 ranks', w=3, n=4, size=2, root=0)
    add('copy3', h_copy, '3 targets of 1-2 spectra, 3 ranks, root 1', w=4, n=3, size=3, root=1)
    add('copy_root', h_copy, '3 targets on rank 1 of 3 only', w=4, n=3, size=3, root=1, only=[])
    if th:
        add('weights2_5', h_work, '5 ids of any weight, 2 processes', w=20, n=5, nproc=2, mode='w')
        add('weights4', h_work, '4 ids of any weight, 4 processes', w=20, n=4, nproc=4, mode='w')
        add('both3', h_work, '3 ids, 3 processes', w=20, n=3, nproc=3, mode='wc')
        add('gpu2', h_gpu, '5 targets, 2 GPU and 2 CPU ranks', w=20, n=5, ngpu=2, ncpu=2)
    return c
