"""C12: moving spectra through shared memory never changes them."""
import copy

import numpy as np

from .. import lib, par
from .c11_coadd import rmat

PROPERTY = 'C12'
ASSUMPTIONS = ['multiprocessing.RawArray is modelled by an array shared between parent and children']
OPS = ('pack', 'unpack', 'csr', 'child')


def h_history(ctx, n, rk, csr, steps, multi=False):
    """any sequence of pack / unpack / use of the CSR matrix / handing a copy to a child process"""
    par.fake_mp(ctx)
    T = ctx.rr.targets
    specs = []
    for k in range(2 if multi else 1):
        d, o = ([[1.0] * (n - 1) + [0.0]], [0]) if rk == 'trunc' else rmat(ctx, f'R{k}', n, rk)
        R = lib.dia(ctx, ctx.arr([list(r) for r in d]) if rk == 'sym' else d, o, n)
        f, v = ctx.reals(f'f{k}', n), ctx.reals(f'v{k}', n, 0)
        w = ctx.arr([3600.0 + i for i in range(n)])
        s = T.Spectrum(w, f, v, R, R.tocsr() if csr else None, band='br'[k])
        specs.append((s, list(w), list(f), list(s.ivar), lib.dense(([list(r) for r in d], o), n), o, [list(r) for r in d]))
    tgt = T.Target(12, [x[0] for x in specs])

    def same(t, where):
        t.sharedmem_unpack()
        ctx.check(len(t.spectra) == len(specs), 'spectra kept')
        for s, (_, w, f, v, m, o, d) in zip(t.spectra, specs):
            ctx.eq(s.wave, w, f'wavelengths unchanged ({where})')
            ctx.eq(s.flux, f, f'flux unchanged ({where})')
            ctx.eq(s.ivar, v, f'inverse variance unchanged ({where})')
            ctx.check(list(s.R.offsets) == list(o) and s.R.shape == (n, n), f'resolution layout unchanged ({where})')
            ctx.eq(s.R.data, d, f'resolution unchanged ({where})')
            ctx.eq(s.Rcsr.toarray(), m, f'CSR resolution unchanged ({where})')
            ctx.check(s.nwave == n and s.wavehash == s.band, f'identity unchanged ({where})')
    for k in range(steps):
        op = OPS[ctx.choice(f'op{k}', 4)]
        if op == 'pack':
            tgt.sharedmem_pack()
        elif op == 'unpack':
            tgt.sharedmem_unpack()
        elif op == 'csr':
            for s, (_, w, f, v, m, o, d) in zip(tgt.spectra, specs):
                ctx.eq(s.Rcsr.toarray(), m, 'CSR resolution usable at any time')
        else:
            same(copy.deepcopy(tgt), 'child process')
    same(tgt, 'parent')
    ctx.cover('done')


def h_array(ctx, shape, kind):
    """mp_array: same shape, type and values"""
    par.fake_mp(ctx)
    if kind in ('float', 'floatT'):
        a = ctx.reals('a', shape)
    else:
        a = ctx.intarr(list(range(int(np.prod(shape))))).reshape(shape)
        if not ctx.symbolic:
            a = a.astype(np.int32)
    if kind == 'int' and len(shape) == 2 or kind == 'floatT':
        a = a.T
    b = ctx.rr.utils.mp_array(a)
    ctx.check(tuple(b.shape) == tuple(a.shape), 'shape kept')
    ctx.check(b.dtype == a.dtype, 'type kept')
    ctx.eq(b, a, 'values kept')
    ctx.cover('done')


def configs(tier):
    th = tier == 'thorough'
    c = []

    def add(name, fn, bounds, cover=('done',), w=1, **params):
        c.append(dict(name=name, fn=fn, params=params, bounds=bounds, cover=list(cover), validate=3, weight=w))
    add('history_csr', h_history, 'all histories of 3 operations, 3 pixels, symbolic data and resolution, CSR cached', w=4, n=3,
        rk='sym', csr=True, steps=3)
    add('history_nocsr', h_history, 'all histories of 3 operations, CSR not cached', w=4, n=3, rk='sym', csr=False, steps=3)
    add('history_two', h_history, '2 spectra per target, 2 operations', w=4, n=4, rk='wide', csr=True, steps=2, multi=True)
    add('array1', h_array, '1-d float array', shape=(3,), kind='float')
    add('array2', h_array, '2-d float array', shape=(2, 3), kind='float')
    add('array2_T', h_array, 'transposed 2-d float array', shape=(2, 3), kind='floatT')
    add('array2_Tint', h_array, 'transposed 2-d integer array', shape=(3, 2), kind='int')
    add('history_trunc', h_history, 'resolution with an empty last column, 2 operations', n=3, rk='trunc', csr=True, steps=2)
    add('array_int', h_array, 'integer array', shape=(4,), kind='int')
    add('array_empty', h_array, 'empty array', shape=(0,), kind='float')
    if th:
        add('history5', h_history, 'all histories of 5 operations', w=20, n=2, rk='sym', csr=True, steps=5)
    return c
