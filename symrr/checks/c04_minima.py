"""C04: local minima of chi2 and the parabola fit through them."""
import numpy as np

PROPERTY = 'C04'
ASSUMPTIONS = ['numpy.polyfit through three distinct abscissae returns the exact interpolating parabola']


def h_minima(ctx, n, special):
    kinds = [ctx.choice(f'k{i}', 3) if special else 0 for i in range(n)]
    vals = ctx.reals('x', n)
    x = [vals[i] if k == 0 else (np.inf, np.nan)[k - 1] for i, k in enumerate(kinds)]
    a = ctx.oarr(x, float)
    out = list(ctx.rr.fitz.find_minima(a))
    out = [int(i) for i in out]
    ctx.check(len(set(out)) == len(out), 'no index twice')
    ctx.check(all(0 <= i < n for i in out), 'indices in range')

    def le(u, v):
        if isinstance(u, float) and u != u or isinstance(v, float) and v != v:
            return False
        return u <= v
    for i in range(n):
        ismin = ctx.And(True if i == 0 else le(x[i], x[i - 1]), True if i == n - 1 else le(x[i], x[i + 1]))
        if i in out:
            ctx.check(ismin, 'every reported index is a local minimum')
        else:
            ctx.check(ctx.Not(ismin), 'every local minimum is reported')
    for i, j in zip(out[:-1], out[1:]):
        ctx.check(le(x[i], x[j]), 'sorted by value')
    if not special:
        ctx.check(len(out) > 0, 'a finite curve has a minimum')
    ctx.cover('done')


def h_many(ctx, n, at):
    """a long curve: a fixed zigzag, one arbitrary value"""
    x = [float((i * 37) % 101 + (0 if i % 2 else 200)) for i in range(n)]
    a = ctx.arr(x)
    a[at] = ctx.real('x', -1, 12)
    out = [int(i) for i in ctx.rr.fitz.find_minima(a)]
    ctx.check(len(set(out)) == len(out), 'no index twice')
    for i in range(n):
        ismin = ctx.And(True if i == 0 else a[i] <= a[i - 1], True if i == n - 1 else a[i] <= a[i + 1])
        ctx.check(ismin if i in out else ctx.Not(ismin), 'the local minima, all of them')
    for i, j in zip(out[:-1], out[1:]):
        ctx.check(a[i] <= a[j], 'sorted by value')
    ctx.cover('done')


def h_minfit(ctx, scale=1):
    x, y = ctx.reals('x', 3, -100, 100), ctx.reals('y', 3, -1000, 1000)
    y = y * scale                   # a power of two: exact
    ctx.require(x[0] + 0.125 <= x[1])
    ctx.require(x[1] + 0.125 <= x[2])
    # divided differences: the parabola through the three points
    d1 = (y[1] - y[0]) / (x[1] - x[0])
    a = ((y[2] - y[1]) / (x[2] - x[1]) - d1) / (x[2] - x[0])
    # away from the degenerate case, so that rounding cannot matter; degenerate case below
    up = ctx.flag('up')
    ctx.require(a >= scale / 64 if up else a <= -scale / 64)
    BAD = ctx.rr.zwarning.ZWarningMask.BAD_MINFIT
    x0, xerr, y0, zw = ctx.rr.fitz.minfit(x, y)
    b = d1 - a * (x[0] + x[1])
    vx = -b / (2 * a)
    vy = y[0] + a * (vx * vx - x[0] * x[0]) + b * (vx - x[0])
    ctx.eq(x0, vx, 'vertex position')
    ctx.eq(y0, vy, 'vertex value')
    ctx.eq(xerr * xerr * (a if up else -a), 1, 'curvature error')
    ctx.lt(0, xerr, 'error positive')
    # conditions away from equality by a margin
    m = 1e-6
    ctx.assume(ctx.And(ctx.Or(vx < x[0] - m, vx > x[0] + m), ctx.Or(vx < x[2] - m, vx > x[2] + m),
                       ctx.Or(vy > m * scale, vy < -m * scale)))
    good = ctx.And(up, vx > x[0], vx < x[2], vy > 0)
    ctx.check((zw & BAD != 0) == ctx.Not(good), 'flagged exactly when not an interior positive minimum')
    ctx.check(zw & ~BAD == 0, 'no other flag')
    ctx.cover('good' if ctx.truth(good) else 'bad')


def h_short(ctx):
    BAD = ctx.rr.zwarning.ZWarningMask.BAD_MINFIT
    for n in (0, 1, 2):
        r = ctx.rr.fitz.minfit(ctx.reals(f'x{n}', n) if n else ctx.arr([]), ctx.reals(f'y{n}', n) if n else ctx.arr([]))
        ctx.check(r[3] & BAD != 0, 'too few points flagged')
        ctx.eq(list(r[:3]), [-1, -1, -1], 'sentinel values')
    c = ctx.const(2)
    r = ctx.rr.fitz.minfit(ctx.arr([1.0, 2.0, 3.0]), ctx.arr([0.0, 0.0, 0.0]))
    ctx.check(r[3] & BAD != 0, 'flat curve flagged')
    ctx.cover('done')


def configs(tier):
    th = tier == 'thorough'
    c = []
    for n in (1, 2, 3, 4, 5) + ((6,) if th else ()):
        c.append(dict(name=f'minima{n}', fn=h_minima, params=dict(n=n, special=False),
                      bounds=f'{n} symbolic values, every order and tie', cover=['done'], weight=n))
    for n in (3, 4) if th else (3,):
        c.append(dict(name=f'minima{n}_special', fn=h_minima, params=dict(n=n, special=True),
                      bounds=f'{n} values, each finite symbolic, inf or nan', cover=['done'], weight=9))
    c.append(dict(name='minima_many', fn=h_many, params=dict(n=300, at=151), bounds='a zigzag of 300 values, one of them symbolic', cover=['done'], weight=3))
    c.append(dict(name='minfit', fn=h_minfit, params={}, bounds='three symbolic points, spacing >= 1/8, |curvature| >= 1/64',
                  cover=['good', 'bad'], nonlinear=True, weight=10))
    for nm, e in (('tiny', -60), ('huge', 50)):
        c.append(dict(name='minfit_' + nm, fn=h_minfit, params=dict(scale=2.0**e), bounds=f'as minfit with y scaled by 2^{e}',
                      cover=['good', 'bad'], nonlinear=True, weight=10))
    c.append(dict(name='minfit_short', fn=h_short, params={}, bounds='0..2 points, flat curve', cover=['done']))
    return c
