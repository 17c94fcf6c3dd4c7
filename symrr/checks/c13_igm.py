"""C13: the IGM transmission is the published optical depth of the chosen model, pixel by pixel."""
import os

import numpy as np

from .. import snp

PROPERTY = 'C13'
ASSUMPTIONS = ['exp and powers are uninterpreted functions (same argument, same value; positivity, monotonicity)',
               'wavelengths > 0, redshifts > -1']
LYA = 1215.67
CALURA = [(1215.67, 0.0023), (1025.72, 0.0023 / 5.2615), (972.537, 0.0023 / 14.356), (949.7431, 0.0023 / 29.85984),
          (937.8035, 0.0023 / 53.36202)]
KAMBLE = [(1215.67, 0.00554)]
DATA = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'data')


def exp(ctx, x):
    return ctx.np.exp(x)


def table(name, rows):
    out = [[float(x) for x in ln.split()] for ln in open(os.path.join(DATA, name)) if ln.strip() and ln[0] != '#']
    return out[:rows] if rows else out


def limit_rows(ctx, rows):
    """only the first lines of the coefficient tables"""
    real = np.loadtxt

    def loadtxt(f, *a, **k):
        k.setdefault('max_rows', rows)
        r = real(f, *a, **k)
        return ctx.arr(r) if ctx.symbolic else r
    if ctx.symbolic:
        snp.NP.loadtxt = loadtxt
        ctx.onclose(lambda: delattr(snp.NP, 'loadtxt'))
    else:
        np.loadtxt = loadtxt
        ctx.onclose(lambda: setattr(np, 'loadtxt', real))
    ctx.rr.patch('igm', 'IGM', None)


def t_series(ctx, z, lam, lines, B):
    """product over the lines redward of the rest wavelength"""
    T = 1
    for line, A in lines:
        if ctx.truth(lam / (1 + z) < line):
            T = T * exp(ctx, -(A * (lam / line) ** B))
    return T


def t_inoue(ctx, z, lam, rows):
    """Inoue et al. 2014, equations 20-29"""
    tau = 0
    rest = lam / (1 + z)
    laf, dla = table('LAFcoeff.txt', rows), table('DLAcoeff.txt', rows)
    for (_, l, a1, a2, a3), (_, _, d1, d2) in zip(laf, dla):
        l, a1, a2, a3, d1, d2 = [ctx.const(x) for x in (l, a1, a2, a3, d1, d2)]
        if ctx.truth(rest < l):
            if ctx.truth(lam < l * 2.2):
                tau = tau + a1 / l ** 1.2 * lam ** 1.2
            elif ctx.truth(lam < l * 5.7):
                tau = tau + a2 / l ** 3.7 * lam ** 3.7
            else:
                tau = tau + a3 / l ** 5.5 * lam ** 5.5
            if ctx.truth(lam < l * 3.0):
                tau = tau + d1 / l ** 2 * lam ** 2
            else:
                tau = tau + d2 / l ** 3 * lam ** 3
    L, Z = lam / 911.8, 1 + z
    if ctx.truth(lam < 911.8 * Z):
        if ctx.truth(z < 1.2):
            tau = tau + 0.3248 * (L ** 1.2 - Z ** -0.9 * L ** 2.1)
        elif ctx.truth(z < 4.7):
            if ctx.truth(lam >= 911.8 * 2.2):
                tau = tau + 2.545e-2 * (Z ** 1.6 * L ** 2.1 - L ** 3.7)
            else:
                tau = tau + 2.545e-2 * Z ** 1.6 * L ** 2.1 + 0.3248 * L ** 1.2 - 0.2496 * L ** 2.1
        elif ctx.truth(lam >= 911.8 * 5.7):
            tau = tau + 5.221e-4 * (Z ** 3.4 * L ** 2.1 - L ** 5.5)
        elif ctx.truth(lam >= 911.8 * 2.2):
            tau = tau + 5.221e-4 * Z ** 3.4 * L ** 2.1 + 0.2182 * L ** 2.1 - 2.545e-2 * L ** 3.7
        else:
            tau = tau + 5.221e-4 * Z ** 3.4 * L ** 2.1 + 0.3248 * L ** 1.2 - 3.140e-2 * L ** 2.1
        if ctx.truth(z < 2):
            tau = tau + 0.2113 * Z ** 2 - 0.07661 * Z ** 2.3 * L ** -0.3 - 0.1347 * L ** 2
        elif ctx.truth(lam >= 911.8 * 3.0):
            tau = tau + 0.04696 * Z ** 3 - 0.01779 * Z ** 3.3 * L ** -0.3 - 0.02916 * L ** 3
        else:
            tau = tau + 0.6340 + 0.04696 * Z ** 3 - 0.01779 * Z ** 3.3 * L ** -0.3 - 0.1347 * L ** 2 - 0.2905 * L ** -0.3
    return exp(ctx, -tau)


def oracle(ctx, z, lam, model, rows):
    if model in (None, 'None'):
        return 1
    if model == 'Inoue14':
        return t_inoue(ctx, z, lam, rows)
    return t_series(ctx, z, lam, CALURA if model == 'Calura12' else KAMBLE, 3.64 if model == 'Calura12' else 3.182)


def h_value(ctx, model, nz, nw, zr, lr, form, rows=2, sym='both', always=True):
    """form: which of redshift (z) and wavelength (w) is passed as an array; e.g. 'zw', 'z', 'w', ''"""
    if model == 'Inoue14':
        limit_rows(ctx, rows)
    zs = [ctx.real(f'z{i}', zr[0], zr[1]) if sym in ('both', 'z') else ctx.const(zr[i]) for i in range(nz)]
    ls = [ctx.real(f'l{i}', lr[0], lr[1]) if sym in ('both', 'w') else ctx.const(lr[i]) for i in range(nw)]
    za = ctx.arr(zs) if 'z' in form else zs[0]
    la = ctx.arr(ls) if 'w' in form else ls[0]
    kw = {} if always else dict(always_return_array=False)
    T = ctx.rr.igm.transmission_Lyman(za, la, model=model, **kw)
    if always is False and T is None:
        # nothing is absorbed anywhere
        for z in zs:
            for lam in ls:
                ctx.eq(oracle(ctx, z, lam, model, rows), 1, 'None only when nothing is absorbed')
        ctx.cover('none')
        return
    shape = ((nz,) if 'z' in form else ()) + ((nw,) if 'w' in form else ())
    if shape:
        ctx.check(tuple(T.shape) == shape, 'shape by redshift and wavelength')
    else:
        ctx.check(np.ndim(T) == 0, 'scalar in, scalar out')
        T = ctx.arr([T])
    T = T.reshape((nz, nw))
    for i, z in enumerate(zs):
        for j, lam in enumerate(ls):
            e = oracle(ctx, z, lam, model, rows)
            ctx.eq(T[i, j], e, 'transmission of the model at this redshift and wavelength')
            if model != 'Inoue14':
                ctx.check(ctx.And(T[i, j] > 0, T[i, j] <= 1), 'transmission in (0, 1]')
            if ctx.truth(lam / (1 + z) >= LYA):
                ctx.eq(T[i, j], 1, 'transparent redward of Lyman alpha')
                ctx.cover('red')
            else:
                ctx.cover('blue')


def h_bad(ctx):
    name = ['calura12', 'Inoue', '', 'Madau95', 3][ctx.choice('k', 5)]
    for alw in (True, False):
        for z, lam in ((ctx.real('z', 0, 6), ctx.real('l', 1000, 9000)), (ctx.const(0.1), ctx.const(9000.0))):
            try:
                ctx.rr.igm.transmission_Lyman(z, lam, model=name, always_return_array=alw)
            except ValueError:
                continue
            ctx.fail('unknown model refused')
    ctx.check(True, 'unknown model refused')
    ctx.cover('done')


def configs(tier):
    th = tier == 'thorough'
    c = []

    def add(name, fn, bounds, cover=('red', 'blue'), w=1, **params):
        c.append(dict(name=name, fn=fn, params=params, bounds=bounds, cover=list(cover), validate=4, weight=w))
    ZR, LR = (0, 6), (500, 10000)
    for m in ('Calura12', 'Kamble20'):
        add(m + '_w', h_value, '1 redshift, 2 wavelengths, all in 0..6 x 500..10000 A', w=6, model=m, nz=1, nw=2, zr=ZR, lr=LR, form='zw')
        add(m + '_z', h_value, '2 redshifts, 1 wavelength', w=6, model=m, nz=2, nw=1, zr=ZR, lr=LR, form='z')
        add(m + '_scalar', h_value, 'scalar redshift and wavelength', model=m, nz=1, nw=1, zr=ZR, lr=LR, form='')
        add(m + '_scalarz', h_value, 'scalar redshift, 2 wavelengths, short-circuit allowed', ('red', 'blue', 'none'), w=6, model=m,
            nz=1, nw=2, zr=ZR, lr=LR, form='w', always=False)
        add(m + '_short', h_value, '2 redshifts, 1 wavelength, short-circuit allowed', ('red', 'blue', 'none'), w=6, model=m, nz=2, nw=1,
            zr=ZR, lr=LR, form='zw', always=False)
    for m, n in ((None, 'none'), ('None', 'nonestr')):
        add(n, h_value, 'no model: transparent', ('red', ), model=m, nz=2, nw=2, zr=(0, 0.001), lr=(2000, 3000), form='zw')
        add(n + '_blue', h_value, 'no model: transparent blueward too', ('none',), model=m, nz=1, nw=1, zr=ZR, lr=LR, form='zw', always=False)
    add('inoue_w', h_value, '1 redshift, 1 wavelength, all values, first 2 lines of the tables', w=9, model='Inoue14', nz=1, nw=1, zr=ZR, lr=LR,
        form='zw')
    add('inoue_scalar', h_value, 'scalars', w=9, model='Inoue14', nz=1, nw=1, zr=(2, 4), lr=(3600, 5000), form='')
    add('inoue_z', h_value, 'any redshift, fixed wavelengths 1900, 3000 and 5500 A', w=9, model='Inoue14', nz=1, nw=3, zr=ZR,
        lr=(1900.0, 3000.0, 5500.0), form='zw', sym='z')
    add('inoue_l', h_value, 'redshifts 0.8, 2.5, 5.5, any wavelength, first 2 lines', w=9, model='Inoue14', nz=3, nw=1, zr=(0.8, 2.5, 5.5), lr=LR,
        form='z', sym='w')
    add('inoue_all', h_value, 'redshift 3, wavelengths 3740 to 5600 A, all 39 lines', w=9, model='Inoue14', nz=1, nw=1, zr=(3.0,),
        lr=(3740, 5600), form='zw', sym='w', rows=None)
    add('inoue_short', h_value, 'short-circuit allowed', ('none', 'blue'), w=9, model='Inoue14', nz=1, nw=1, zr=(1, 3), lr=(3600, 9800), form='w',
        always=False)
    add('bad', h_bad, '5 unknown names', ('done',))
    if th:
        add('inoue_all2', h_value, 'redshifts 3 and 5, any wavelength above 3600 A, all 39 lines', w=30, model='Inoue14', nz=2, nw=1,
            zr=(3.0, 5.0), lr=(3600, 9800), form='zw', sym='w', rows=None)
        for m in ('Calura12', 'Kamble20'):
            add(m + '_22', h_value, '2 redshifts, 2 wavelengths', w=20, model=m, nz=2, nw=2, zr=ZR, lr=LR, form='zw')
        add('inoue_22', h_value, '2 redshifts, 1 wavelength, all values, 2 lines', w=20, model='Inoue14', nz=2, nw=1, zr=ZR, lr=LR, form='zw')
    return c
