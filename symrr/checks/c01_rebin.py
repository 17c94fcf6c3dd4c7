"""C01: rebinning returns the exact bin average of the linearly interpolated, redshifted input."""
import types

PROPERTY = 'C01'
ASSUMPTIONS = ['input grids strictly increasing, output edges strictly increasing, redshifts > -1',
               'numba.jit taken as the identity (the Python source of the kernel is what is encoded)']


def interp(x, y, k, t):
    return y[k] + (t - x[k]) * (y[k + 1] - y[k]) / (x[k + 1] - x[k])


def binavg(ctx, x, y, lo, hi):
    """integral over [lo,hi] of the piecewise-linear function through (x,y), over the width"""
    tot = ctx.const(0)
    for k in range(len(x) - 1):
        if ctx.truth(x[k + 1] <= lo) or ctx.truth(x[k] >= hi):
            continue
        a = lo if ctx.truth(x[k] <= lo) else x[k]
        b = hi if ctx.truth(hi <= x[k + 1]) else x[k + 1]
        tot = tot + (interp(x, y, k, a) + interp(x, y, k, b)) * (b - a) / 2
    return tot / (hi - lo)


def increasing(ctx, a):
    for i in range(len(a) - 1):
        ctx.require(a[i] < a[i + 1])


def h_1d(ctx, nx, nbin, ties):
    x, y, e = ctx.reals('x', nx), ctx.reals('y', nx), ctx.reals('e', nbin + 1)
    increasing(ctx, x)
    increasing(ctx, e)
    ctx.require(x[0] <= e[0])
    ctx.require(e[nbin] <= x[nx - 1])
    out = ctx.rr.rebin.trapz_rebin(x, y, edges=e)
    ctx.check(out.shape == (nbin,), 'shape')
    for i in range(nbin):
        ctx.eq(out[i], binavg(ctx, x, y, e[i], e[i + 1]), 'bin average')
    ctx.cover('done')


def h_batch(ctx, nx, nbin, nbasis, xs, es, z, zs, mode):
    """one of x / z symbolic; y always symbolic"""
    x = ctx.reals('x', nx) if xs is None else ctx.arr(xs)
    increasing(ctx, x)
    e = ctx.reals('e', nbin + 1) if es is None else ctx.arr(es)
    increasing(ctx, e)
    if zs is None:
        zz = ctx.reals('z', z, 0, 3)
    else:
        zz = ctx.arr(zs)
    zmin, zmax = ctx.min(*list(zz)), ctx.max(*list(zz))
    ctx.assume(ctx.And(x[0] * (1 + zmax) <= e[0], e[nbin] <= x[nx - 1] * (1 + zmin)))
    if mode == '1dy':
        y = ctx.reals('y', nx)
        out = ctx.rr.rebin.trapz_rebin(x, y, edges=e, myz=zz)
        ctx.check(out.shape == (len(zz), nbin), 'shape')
        get = lambda iz, i, b: out[iz, i]
        yy = [y]
    elif mode == 'scalarz':
        y = ctx.reals('y', (nbasis, nx))
        out = ctx.rr.rebin.trapz_rebin(x, y, edges=e, myz=zz[0])
        ctx.check(out.shape == (nbin, nbasis), 'shape')
        get = lambda iz, i, b: out[i, b]
        yy = [y[b] for b in range(nbasis)]
        zz = zz[:1]
    elif mode == 'scalarz1d':
        y = ctx.reals('y', nx)
        out = ctx.rr.rebin.trapz_rebin(x, y, edges=e, myz=zz[0])
        ctx.check(out.shape == (nbin,), 'shape')
        get = lambda iz, i, b: out[i]
        yy = [y]
        zz = zz[:1]
    else:
        y = ctx.reals('y', (nbasis, nx))
        out = ctx.rr.rebin.trapz_rebin(x, y, edges=e, myz=zz)
        ctx.check(out.shape == (len(zz), nbin, nbasis), 'shape')
        get = lambda iz, i, b: out[iz, i, b]
        yy = [y[b] for b in range(nbasis)]
    for iz in range(len(zz)):
        xz = x * (1 + zz[iz])
        for b, yb in enumerate(yy):
            for i in range(nbin):
                ctx.eq(get(iz, i, b), binavg(ctx, xz, yb, e[i], e[i + 1]), 'bin average (batch)')
    ctx.cover('done')


def h_range(ctx, nx, nbin, batch):
    """edges outside the redshifted input range are refused, inside accepted"""
    x = ctx.arr([1, 2, 3, 5][:nx])
    y = ctx.reals('y', nx)
    e = ctx.reals('e', nbin + 1, -1, 25)
    increasing(ctx, e)
    zz = ctx.reals('z', 2, 0, 2) if batch else None
    zmin = ctx.min(*list(zz)) if batch else 0
    zmax = ctx.max(*list(zz)) if batch else 0
    bad = ctx.Or(e[0] < x[0] * (1 + zmax), e[nbin] > x[nx - 1] * (1 + zmin))
    isbad = ctx.truth(bad)
    try:
        ctx.rr.rebin.trapz_rebin(x, y, edges=e, myz=zz)
        raised = False
    except ValueError:
        raised = True
    ctx.check(raised == isbad, 'ValueError iff edges outside the input range')
    ctx.cover('raised' if raised else 'accepted')


def h_edges(ctx, n):
    c = ctx.reals('c', n)
    increasing(ctx, c)
    e = ctx.rr.rebin.centers2edges(c)
    ctx.check(len(e) == n + 1, 'one more edge than centers')
    for i in range(n - 1):
        ctx.eq(e[i + 1], (c[i] + c[i + 1]) / 2, 'interior edges are midpoints')
    ctx.eq(c[0] - e[0], e[1] - c[0], 'first bin symmetric about its center')
    ctx.eq(e[n] - c[n - 1], c[n - 1] - e[n - 1], 'last bin symmetric about its center')
    for i in range(n):
        ctx.lt(e[i], e[i + 1], 'edges increasing')
    ctx.cover('done')


def h_template(ctx, zsym, use_edges, again=False):
    """rebin_template: every wavelength grid, every basis vector, every redshift, also call after call with other data of the same shape"""
    one_template(ctx, zsym, use_edges, 'f', [2, 3, 4, 6, 9], {'b': [3.5, 4.0, 4.5], 'r': [5.0, 5.5]})
    if again:
        one_template(ctx, zsym, use_edges, 'g', [2, 3, 4, 6, 9], {'b': [3.5, 4.25, 4.5], 'r': [5.0, 5.5]})
        one_template(ctx, zsym, use_edges, 'h', [2, 3, 5, 6, 9], {'b': [3.5, 4.25, 4.5], 'r': [5.0, 5.25]})
    ctx.cover('done')


def one_template(ctx, zsym, use_edges, tag, w, grids):
    w = ctx.arr(w)
    f = ctx.reals(tag, (2, 5))
    t = types.SimpleNamespace(wave=w, flux=f, minwave=w[0], maxwave=w[-1], gpuwave=None, gpuflux=None, nbasis=2)
    zz = ctx.reals('z' if tag == 'f' else 'z' + tag, 2, 0, ctx.const(1) / 4) if zsym else ctx.arr([0, 0.25])
    grids = {k: ctx.arr(g) for k, g in grids.items()}
    reb = ctx.rr.rebin
    edges = {k: reb.centers2edges(v) for k, v in grids.items()}
    if use_edges:
        out = reb.rebin_template(t, zz, dedges={'b': edges['b'], 'r': (edges['r'], edges['r'][0], edges['r'][-1])})
    else:
        out = reb.rebin_template(t, zz, dwave=grids)
    ctx.check(sorted(out.keys()) == ['b', 'r'], 'one result per wavelength grid')
    for k, g in grids.items():
        n = len(g)
        ctx.check(out[k].shape == (2, n, 2), 'shape (nz, nwave, nbasis)')
        # oracle edges: midpoints, symmetric ends
        ee = [g[0] - (g[1] - g[0]) / 2] + [(g[i] + g[i + 1]) / 2 for i in range(n - 1)] + [g[n - 1] + (g[n - 1] - g[n - 2]) / 2]
        for iz in range(2):
            for b in range(2):
                for i in range(n):
                    ctx.eq(out[k][iz, i, b], binavg(ctx, w * (1 + zz[iz]), f[b], ee[i], ee[i + 1]),
                           'template bin average')


def configs(tier):
    th = tier == 'thorough'
    c = []

    def add(name, fn, bounds, **params):
        c.append(dict(name=name, fn=fn, params=params, bounds=bounds, cover=['done'], validate=4))
    add('1d_4x2', h_1d, '4 input samples, 2 output bins, everything symbolic', nx=4, nbin=2, ties=True)
    add('1d_5x3', h_1d, '5 input samples, 3 output bins, everything symbolic', nx=5, nbin=3, ties=True)
    if th:
        add('1d_6x4', h_1d, '6 input samples, 4 output bins, everything symbolic', nx=6, nbin=4, ties=True)
    B = dict(nx=4, nbin=2, nbasis=2, xs=[1, 2, 4, 7], es=[2.5, 3, 4.5], z=2, zs=None, mode='3d')
    add('batch_zsym', h_batch, '2 symbolic redshifts, 4 samples, 2 bins, 2 bases, symbolic y', **B)
    add('batch_esym', h_batch, '2 fixed redshifts, symbolic edges, 4 samples, 2 bins, 2 bases, symbolic y',
        **dict(B, es=None, zs=[0.5, 0.0]))
    add('batch_xsym', h_batch, '2 fixed redshifts, symbolic input grid, 2 bins, 2 bases, symbolic y',
        **dict(B, xs=None, zs=[0.25, 0.0]))
    add('batch_1dy', h_batch, '1-d y, 2 symbolic redshifts', **dict(B, mode='1dy'))
    add('batch_scalarz', h_batch, 'scalar symbolic redshift, 2 bases', **dict(B, mode='scalarz', z=1))
    add('batch_scalarz1d', h_batch, 'scalar symbolic redshift, 1-d y', **dict(B, mode='scalarz1d', z=1))
    add('edges3', h_edges, '3 symbolic centers', n=3)
    add('edges2', h_edges, '2 symbolic centers', n=2)
    add('edges5', h_edges, '5 symbolic centers', n=5)
    c.append(dict(name='range_1d', fn=h_range, params=dict(nx=4, nbin=2, batch=False), bounds='3 symbolic edges',
                  cover=['raised', 'accepted']))
    c.append(dict(name='range_batch', fn=h_range, params=dict(nx=4, nbin=1, batch=True),
                  bounds='2 symbolic edges, 2 symbolic redshifts', cover=['raised', 'accepted']))
    add('template_dwave', h_template, '2 grids (3 and 2 pixels), 2 redshifts, 2 bases, symbolic flux', zsym=False, use_edges=False)
    add('template_dedges', h_template, 'as above with edges passed', zsym=False, use_edges=True)
    add('template_again', h_template, 'three calls with other grids and templates of the same shape', zsym=False, use_edges=False, again=True)
    add('template_zsym', h_template, '2 symbolic redshifts', zsym=True, use_edges=False)
    return c
