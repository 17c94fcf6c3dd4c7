"""C14: scan files keep every value under its target and template, at any selection."""
import os
import shutil
import tempfile
import types

import numpy as np

from .. import fakefs

PROPERTY = 'C14'
ASSUMPTIONS = ['HDF5 stores and returns arrays unchanged, refuses unicode arrays, lists groups alphabetically',
               'single precision rounds to 7 digits']
IDS = [39627700000000007, -5, 39627700000000009]     # neighbours, beyond the exact range of a float
STR = ('spectype', 'subtype', 'fitmethod', 'pca_spectype', 'pca_subtype')
T1 = 2e-6


def mount(ctx, crash=None):
    """where files go: a modelled file system, or a scratch directory with the real h5py"""
    if ctx.symbolic:
        fs = fakefs.FS(crash)
        o = fs.os_module()
        ctx.shim('os', o)
        ctx.shim('os.path', o.path)
        ctx.shim('h5py', fs.h5py_module())
        return '/out/', fs
    d = tempfile.mkdtemp(prefix='symrr_')
    ctx.onclose(lambda: shutil.rmtree(d, ignore_errors=True))
    return d + '/', None


def mostly(ctx, name, shape, lo, hi, salt=0):
    """distinct fixed values, the first chi2 and coefficient arbitrary"""
    n = int(np.prod(shape))
    v = np.array([lo + (hi - lo) * ((i * 37 + salt * 11) % 997) / 1024 for i in range(n)]).reshape(shape)
    a = ctx.arr(v)
    if name in ('x', 'co'):
        a[(0,) * len(v.shape)] = ctx.real(name, lo, hi)
    return a


def scan(ctx, ids, ftypes, nz, nb):
    z = {}
    for t in ids:
        z[t] = {}
        for f in ftypes:
            k = f'{ids.index(t)}{ftypes.index(f)}'
            if len(ids) > 10 and (t != ids[-1] or f != ftypes[0]):
                i, c = ids.index(t), ftypes.index(f)
                z[t][f] = dict(redshifts=np.array([0.1 * q + 0.3 + c for q in range(nz)]), penalty=ctx.arr([float(i + c)] * nz),
                               zchi2=ctx.arr([i + 0.5 * c] * nz), zcoeff=ctx.arr([[i - c / 4 + b for b in range(nb[c])]] * nz))
                continue
            z[t][f] = dict(redshifts=np.array([0.1 * i + 0.3 + ftypes.index(f) for i in range(nz)]), penalty=ctx.reals('p' + k, nz, 0, 100),
                           zchi2=ctx.reals('c' + k, nz, 0, 1000), zcoeff=ctx.reals('k' + k, (nz, nb[ftypes.index(f)]), -10, 10))
    return z


def zfit_table(ctx, ids, ftypes, per, ncoef, arch=False, fitm=True):
    """rows as zfind makes them; per[t] = list of template indices, in znum order"""
    rows = [(t, k, f) for t in range(len(ids)) for k, f in enumerate(per[t])]
    n = len(rows)
    if len(ids) > 10:
        many = ctx
        ctx = types.SimpleNamespace(reals=lambda k, s, lo, hi: mostly(many, k, s if isinstance(s, tuple) else (s,), lo, hi, len(k)), rr=many.rr,
                                    ints=lambda k, s, lo, hi: np.array([(i * 7 + len(k)) % hi for i in range(s)]))
    parse = [ft.split(':::') if ':::' in ft else (ft, '') for ft in ftypes]
    cols = dict(targetid=[ids[t] for t, k, f in rows], z=ctx.reals('z', n, 0, 6), zerr=ctx.reals('ze', n, 0, 1),
                zwarn=ctx.ints('zw', n, 0, 4095), chi2=ctx.reals('x', n, 0, 1000), deltachi2=ctx.reals('dx', n, 0, 1000),
                coeff=ctx.reals('co', (n, ncoef), -10, 10), npixels=ctx.ints('np', n, 0, 70000), ncoeff=ctx.ints('nc', n, 1, 10),
                znum=[k for t, k, f in rows], zz=ctx.reals('zz', (n, 3), 0, 6), zzchi2=ctx.reals('zzc', (n, 3), 0, 1000))
    spec = [parse[f][0] for t, k, f in rows]
    sub = [parse[f][1] for t, k, f in rows]
    if arch:
        cols['pca_spectype'], cols['pca_subtype'] = np.array(spec, dtype='<U6'), np.array(sub, dtype=f'<U{max([20] + [len(x) for x in sub])}')
        sub = [f'ELG_{10 + i}' for i in range(n)]
    cols['spectype'], cols['subtype'] = np.array(spec, dtype='<U6'), np.array(sub, dtype=f'<U{max([20] + [len(x) for x in sub])}')
    if fitm:
        cols['fitmethod'] = np.array([['PCA', 'NMF', 'ARCH'][(t + k) % 3] for t, k, f in rows], dtype='<U4')
    for k in ('targetid', 'znum'):
        cols[k] = np.array(cols[k], dtype=int)
    return ctx.rr.results.Table(cols), rows


def kind(a):
    return a.dtype.kind + str(a.dtype.itemsize)


def text(v):
    return [x.decode() if isinstance(x, bytes) else str(x) for x in v]


def same_rows(ctx, got, tab, sel, upper, what):
    up = (lambda c: c.upper()) if upper else (lambda c: c)
    ctx.check([up(c) for c in tab.colnames] == list(got.colnames), what + ': columns', f'{got.colnames}')
    ctx.check(len(got) == len(sel), what + ': rows', f'{len(got)} {len(sel)}')
    for c in tab.colnames:
        a, b = got[up(c)], tab[c]
        if c in STR:
            ctx.check(text(a) == [text(b)[i] for i in sel], what + ': text column')
            if c in ('spectype', 'subtype'):
                ctx.check(a.dtype.kind == 'U', what + ': types are text')
        else:
            exact = c in ('targetid', 'z', 'zwarn', 'npixels', 'ncoeff', 'znum')
            ctx.eq(list(a), [b[i] for i in sel], what + ': values', 1e-12 if exact else T1)
    ctx.check(kind(got[up('z')]) == 'f8', what + ': redshift in double precision')
    ctx.check(kind(got[up('targetid')]) == 'i8', what + ': target ids in 64 bits')


def h_round(ctx, nt, ftypes, nz, arch=False, sel=None, upper=False, order=None, clobber=False, nb=(2, 3, 1), many=0, fixed=False):
    path, _ = mount(ctx)
    R = ctx.rr.results
    ids = [IDS[i] if nt <= len(IDS) else 39627788000000000 + i for i in (order or range(nt))]
    nb = list(nb)[:len(ftypes)]
    per = [] if fixed else [[ctx.choice(f'f{t}{k}', len(ftypes)) for k in range(2 if t == 0 else 1)] for t in range(nt)]
    if fixed:
        per = [[(k + t) % len(ftypes) for k in range(1 + t % 2)] for t in range(nt)]
    if many:
        per[0] = [(k * k) % len(ftypes) for k in range(many)]
    zs = scan(ctx, ids, ftypes, nz, nb)
    tab, rows = zfit_table(ctx, ids, ftypes, per, 3, arch)
    orig = tab.copy()
    keep = {t: {f: {k: list(v) for k, v in zs[t][f].items()} for f in ftypes} for t in ids}
    name = path + 'new/dir/rr.h5'
    if clobber:
        # an older, different file is in the way
        zo = scan(ctx, [77], ['STAR'], 1, [1])
        to, _ = zfit_table(ctx, [77], ['STAR'], [[0]], 3)
        R.write_zscan(name, zo, to)
    R.write_zscan(name, zs, tab, clobber=True) if clobber else R.write_zscan(name, zs, tab)
    same_rows(ctx, tab, orig, range(len(rows)), False, 'caller\'s table')
    ctx.check([kind(tab[c]) for c in tab.colnames] == [kind(orig[c]) for c in tab.colnames], 'caller\'s table keeps its types')
    kw = {}
    want = list(ids)
    if sel is not None:
        want = [ids[i] for i in sel] if isinstance(sel, (list, tuple)) else [ids[sel]]
        kw['select_targetids'] = want if isinstance(sel, (list, tuple)) else ids[sel]
        if ctx.flag('asarr') and isinstance(sel, (list, tuple)):
            kw['select_targetids'] = np.array(want)
    if upper:
        kw['upper'] = True
    got, zf = R.read_zscan(name, **kw)
    only = R.read_zscan(name, nozfit=True, **kw)
    again = R.read_zfit(name, **kw)
    # the stacked table may follow the file or the selection, targets in one piece
    pos = {t: [i for i, r in enumerate(rows) if ids[r[0]] == t] for t in want}
    tid = [int(x) for x in zf['TARGETID' if upper else 'targetid']]
    seen = [t for i, t in enumerate(tid) if i == 0 or tid[i - 1] != t]
    ctx.check(sorted(seen) == sorted(want), 'table has the selected targets, each in one piece', f'{seen} {want}')
    if sel is None:
        ctx.check(seen == want, 'targets in the order of the table written')
    if sorted(seen) == sorted(want):
        flat = [i for t in seen for i in pos[t]]
        same_rows(ctx, zf, orig, flat, upper, 'table read back')
        same_rows(ctx, again, orig, flat, upper, 'table read alone')
    for res, full in ((got, True), (only, False)):
        ctx.check({int(t) for t in res} == set(want), 'selected targets in the scan')
        for t in want:
            ctx.check(set(res[t]) == set(ftypes), 'all templates of the target')
            for f in ftypes:
                for k in ('redshifts', 'zchi2', 'penalty', 'zcoeff'):
                    ctx.check(tuple(res[t][f][k].shape) == tuple(np.shape(zs[t][f][k])), 'shape of the scan')
                    if k == 'redshifts':
                        ctx.check([float(x) for x in res[t][f][k]] == keep[t][f][k], 'redshifts in full precision')
                    else:
                        ctx.eq(res[t][f][k], keep[t][f][k], 'scan values of this target and template', T1)
                if not full:
                    ctx.check('zfit' not in res[t][f], 'no fits unless wanted')
                    continue
                mine = [i for i in pos[t] if ftypes[rows[i][2]] == f]
                if mine:
                    ctx.check('zfit' in res[t][f], 'fits of this target and template')
                    same_rows(ctx, res[t][f]['zfit'], orig, mine, upper, 'fits of this target and template')
                else:
                    ctx.check('zfit' not in res[t][f], 'no fits of other templates')
    full = R.read_zscan_redrock(name)
    ctx.check({int(t) for t in full} == set(ids), 'reused scan has all targets')
    for t in ids:
        ctx.check(set(full[t]) == set(ftypes), 'reused scan has all templates')
        for f in ftypes:
            ctx.check(set(full[t][f]) == {'redshifts', 'zchi2', 'penalty', 'zcoeff'}, 'keys of a reused scan')
            for k in full[t][f]:
                if k == 'redshifts':
                    ctx.check([float(x) for x in full[t][f][k]] == keep[t][f][k], 'redshifts in full precision')
                else:
                    ctx.eq(full[t][f][k], keep[t][f][k], 'reused scan values of this target and template', T1)
    ctx.cover('done')


def h_best(ctx):
    """the best fits are stored too, one row per target"""
    path, _ = mount(ctx)
    ids, ft = IDS[:2], ['GALAXY', 'STAR:::M']
    zs = scan(ctx, ids, ft, 2, [1, 1])
    tab, rows = zfit_table(ctx, ids, ft, [[0, 1], [1, 0]], 2)
    ctx.rr.results.write_zscan(path + 'x.h5', zs, tab)
    if ctx.symbolic:
        h5 = ctx._shims['h5py']
    else:
        import h5py as h5
    with h5.File(path + 'x.h5', 'r') as fx:
        ctx.check([int(x) for x in fx['targetids'][:]] == ids, 'targets of the file')
        b = fx['zbest'][:]
        ctx.check([int(x) for x in b['targetid']] == ids, 'one best fit per target')
        ctx.eq(list(b['z']), [tab['z'][0], tab['z'][2]], 'best fit is fit number 0')
        ctx.eq(list(b['chi2']), [tab['chi2'][0], tab['chi2'][2]], 'best fit is fit number 0', T1)
        ctx.check(text(b['spectype']) == ['GALAXY', 'STAR'], 'best fit is fit number 0')
    left = [x for x in (ctx._shims['os'].listdir(path) if ctx.symbolic else os.listdir(path)) if not x.endswith('.h5')]
    ctx.check(not left, 'no temporary file left', str(left))
    ctx.cover('done')


def h_types(ctx):
    """template names survive the trip through (spectype, subtype)"""
    T = ctx.rr.templates
    specs = ['GALAXY', 'QSO', 'STAR', 'X']
    subs = ['', 'HIZ', 'M', 'WHITE DWARF', 'B:A', None, 'ELG_3;LRG_7']
    s, u = specs[ctx.choice('s', 4)], subs[ctx.choice('u', 7)]
    full = T.make_fulltype(s, u)
    a, b = T.parse_fulltype(full)
    ctx.check(a == s and b == (u or ''), 'type and subtype survive the full type')
    ctx.check(full == (s if not u else s + ':::' + u), 'full type is TYPE or TYPE:::SUBTYPE')
    pad = T.parse_fulltype(full + '  ')
    ctx.check(tuple(pad) == (s, u or ''), 'padding of table columns is ignored')
    ctx.check(T.make_fulltype(s + ' ', (u or '') + '  ') == full, 'padding of table columns is ignored')
    ctx.cover('done')


def configs(tier):
    th = tier == 'thorough'
    c = []

    def add(name, fn, bounds, w=3, **params):
        c.append(dict(name=name, fn=fn, params=params, bounds=bounds, cover=['done'], validate=3, weight=w))
    F = ['GALAXY', 'QSO:::HIZ']
    add('one', h_round, '1 target, 1 template, 2 fits', nt=1, ftypes=['GALAXY'], nz=2)
    add('two', h_round, '2 targets, 2 templates, any template per fit', nt=2, ftypes=F, nz=2, order=[0, 1])
    add('swapped', h_round, '2 targets in the other order', nt=2, ftypes=['STAR:::M', 'GALAXY'], nz=1, order=[2, 1])
    add('three', h_round, '3 targets, 2 templates of different size', nt=3, ftypes=F, nz=1, order=[2, 0, 1])
    add('clobber', h_round, 'replacing an older file', nt=2, ftypes=['GALAXY'], nz=1, clobber=True)
    add('upper', h_round, 'upper-case columns', nt=2, ftypes=F, nz=1, upper=True)
    for k, s in enumerate([0, 1, [1], [2, 0], [1, 2], [2, 1, 0]]):
        add(f'select{k}', h_round, f'3 targets, selection {s}, list or array', nt=3, ftypes=F, nz=1, sel=s, order=[1, 2, 0], w=4)
    add('selectup', h_round, 'selection with upper-case columns', nt=3, ftypes=F, nz=1, sel=[2, 0], upper=True)
    add('arch', h_round, 'archetype fits: fits belong to the template they came from', nt=2, ftypes=F, nz=1, arch=True)
    add('archup', h_round, 'archetype fits, upper case, selection', nt=2, ftypes=F, nz=1, arch=True, upper=True, sel=[1])
    add('many', h_round, '2 targets, one of them with 12 fits', nt=2, ftypes=F, nz=1, many=12, order=[1, 0])
    add('targets', h_round, '70 targets in reverse order, 2 templates', nt=70, ftypes=F, nz=1, order=list(range(69, -1, -1)), fixed=True)
    add('subtypes', h_round, '2 subtypes of one type', nt=2, ftypes=['STAR:::M', 'STAR:::F'], nz=1)
    add('subtypes_arch', h_round, 'archetype fits, subtypes of one type', nt=2, ftypes=['STAR:::M', 'STAR'], nz=1, arch=True)
    add('best', h_best, '2 targets')
    add('types', h_types, '4 types x 7 subtypes')
    if th:
        add('three3', h_round, '3 targets, 3 templates', nt=3, ftypes=F + ['STAR'], nz=2, order=[2, 0, 1], w=20)
        add('archsel', h_round, 'archetypes, 3 targets, 3 templates', nt=3, ftypes=F + ['STAR'], nz=1, arch=True, sel=[2, 0], w=20)
    return c
