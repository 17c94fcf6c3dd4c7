"""C07: final per-target candidate tables: ranked, trimmed, flagged, row-consistent, none lost."""
import numpy as np

from .. import lib

PROPERTY = 'C07'
ASSUMPTIONS = ['the coarse scan and the per-template refinement are replaced by stubs returning arbitrary candidates that '
               'satisfy what C05 establishes (sorted, at most nminima)',
               'astropy.table.Table is replaced by a column container with the same row semantics']
C = 299792.458
NEGMODEL, OUTLIERS, FITLIMIT, NEGEM, BADMIN = 8, 16, 32, 64, 1024
BADFIT = NEGMODEL | OUTLIERS | FITLIMIT | NEGEM | BADMIN
LITTLE, SMALLD, NODATA = 2, 4, 512


def absv(ctx, x):
    return ctx.ite(x < 0, -x, x)


def h_delta(ctx, n, zmode, same):
    chi2 = ctx.reals('chi', n, 0, 100)
    if zmode == 'sym':
        z = ctx.reals('z', n, 0, 5)
    elif zmode == 'one':
        z = ctx.arr([0.5, 0.5025, 0.503])
        z[1] = ctx.real('z', 0, 5)
    else:
        z = ctx.arr([0.5 + 0.0025 * i * (1 if i % 2 else -1) for i in range(n)])
    bits = [ctx.choice(f'b{i}', 3) for i in range(n)]
    zw = ctx.intarr([[0, LITTLE | SMALLD, BADMIN][b] for b in bits])
    ok = [b != 2 for b in bits]
    if same:
        lim = [1000.0] * n
        d, s = ctx.rr.zfind.calc_deltachi2(chi2, z, zw, dvlimit=1000.0)
    else:
        lim = [[1000.0, 100.0][ctx.choice(f'l{i}', 2)] for i in range(n)]
        d, s = ctx.rr.zfind.calc_deltachi2(chi2, z, zw, dvlimit=ctx.arr(lim))
    for i in range(n):
        best, sm = None, []
        for j in range(n):
            if j == i or not ok[j]:
                continue
            dv = absv(ctx, z[j] - z[i]) * C / (1 + z[i])
            L = min(lim[i], lim[j])
            if not ctx.symbolic and abs(dv - L) < 1e-6:
                return
            sm.append(ctx.And(absv(ctx, chi2[j] - chi2[i]) < 9, dv >= L))
            if j > i and ctx.truth(dv > L):
                v = chi2[j] - chi2[i]
                best = v if best is None else ctx.min(best, v)
        if not ctx.symbolic and any(abs(abs(chi2[j] - chi2[i]) - 9) < 1e-9 for j in range(n) if j != i):
            return
        ctx.eq(d[i], 0 if best is None else best, 'delta chi2 to the next distinct good candidate')
        ctx.check(s[i] == ctx.Or(*sm) if sm else ctx.Not(s[i]), 'small-delta flag exactly when a distinct good '
                                                                'candidate is within the threshold')
    ctx.cover('done')


def h_sort(ctx, n, what):
    zw = ctx.ints('zw', n, 0, 0) if False else None
    bits = [ctx.choice(f'b{i}', 4) for i in range(n)]
    vals = [0, BADMIN, NODATA | SMALLD, FITLIMIT | LITTLE]
    zwl = [vals[b] for b in bits]
    chi2 = ctx.reals('chi', n)
    tag = [10.0 + i for i in range(n)]
    zf = ctx.rr.zfind
    if what == 'dict':
        d = dict(zwarn=ctx.intarr(zwl), chi2=chi2.copy(), tag=ctx.arr(tag), coeff=ctx.reals('c', (n, 2)))
        c0 = d['coeff'].copy()
        zf.sort_zfit_dict(d)
        ctx.check(sorted(d.keys()) == ['chi2', 'coeff', 'tag', 'zwarn'], 'no column added or lost')
        oz, oc, ot, oco = list(d['zwarn']), list(d['chi2']), list(d['tag']), d['coeff']
    elif what == 'table':
        T = zf.astropy.table.Table
        d = T(dict(zwarn=ctx.intarr(zwl), chi2=chi2.copy(), tag=ctx.arr(tag)))
        zf.sort_zfit(d)
        ctx.check(sorted(d.colnames) == ['chi2', 'tag', 'zwarn'], 'no column added or lost')
        oz, oc, ot, oco = list(d['zwarn']), list(d['chi2']), list(d['tag']), None
        c0 = None
    perm = [int(round(float(t))) - 10 for t in ot]
    ctx.check(sorted(perm) == list(range(n)), 'rows are a permutation of the input rows')
    for k, p in enumerate(perm):
        ctx.check(int(oz[k]) == zwl[p], 'rows kept together (zwarn)')
        ctx.eq(oc[k], chi2[p], 'rows kept together (chi2)')
        if oco is not None:
            ctx.eq(list(oco[k]), list(c0[p]), 'rows kept together (coefficients)')
    for a, b in zip(perm[:-1], perm[1:]):
        ba, bb = bool(zwl[a] & BADFIT), bool(zwl[b] & BADFIT)
        ctx.check(ba <= bb, 'good fits before bad fits')
        if ba == bb:
            ctx.check(chi2[a] <= chi2[b], 'ordered by chi2 within good and bad')
    ctx.cover('done')


def h_cols(ctx, n, first):
    a = ctx.ints('a', n, 0, 1)
    b = ctx.reals('b', n)
    tag = ctx.arr([float(i) for i in range(n)])
    d = dict(a=a.copy(), b=b.copy(), tag=tag)
    ctx.rr.zfind.sort_dict_by_cols(d, ('a', 'b'), sort_first_column_first=first)
    perm = [int(round(float(t))) for t in d['tag']]
    ctx.check(sorted(perm) == list(range(n)), 'permutation')
    for p, q in zip(perm[:-1], perm[1:]):
        if first:
            c = ctx.Or(a[p] < a[q], ctx.And(a[p] == a[q], b[p] <= b[q]))
        else:
            c = ctx.Or(b[p] < b[q], ctx.And(b[p] == b[q], a[p] <= a[q]))
        ctx.check(c, 'lexicographic order')
    for k, p in enumerate(perm):
        ctx.check(ctx.And(d['a'][k] == a[p], d['b'][k] == b[p]), 'rows kept together')
    e = dict(b=b.copy(), tag=ctx.arr([float(i) for i in range(n)]))
    ctx.rr.zfind.sort_dict_by_col(e, 'b')
    perm = [int(round(float(t))) for t in e['tag']]
    for k, p in enumerate(perm):
        ctx.check(e['b'][k] == b[p], 'single-column sort keeps rows together')
    for p, q in zip(perm[:-1], perm[1:]):
        ctx.check(b[p] <= b[q], 'single-column order')
    ctx.cover('done')


class Tg:
    def __init__(self, id, meta):
        self.id, self.meta, self.spectra = id, meta, [None]


class DistT:
    def __init__(self, tgs, ids=None):
        self._t = tgs
        self.comm = None
        self.all_target_ids = ids or [t.id for t in tgs]

    def local(self):
        return self._t

    def local_target_ids(self):
        return [t.id for t in self._t]


def run(ctx, tgs, tmpls, cands, nminima, order=None):
    """zfind with the given candidates: cands[tid][fulltype] = list of dicts"""
    z = ctx.arr([0.1, 0.2, 0.3])
    fz = ctx.rr.zfind

    def scan(targets, templates, mp_procs=1, use_gpu=False, **k):
        return {t.id: {tp.template.full_type: dict(redshifts=z, zchi2=ctx.arr([1.0, 2.0, 3.0]),
                                                   penalty=ctx.arr([0.0, 0.0, 0.0]), zcoeff=None)
                       for tp in templates} for t in targets.local()}

    def fit(zchi2, redshifts, target, template, nminima=3, **k):
        cc = cands[target.id][template.full_type][:nminima]
        nb = template.nbasis
        n = len(cc)
        if n == 0:
            x = np.zeros((0, 1))
            return {k: x for k in ('z', 'zerr', 'zwarn', 'chi2', 'zz', 'zzchi2', 'coeff', 'fitmethod', 'npixels')}
        one = lambda f, mk: mk([[f(c)] for c in cc])
        co = ctx.zeros((n, nb))
        for i, c in enumerate(cc):
            for k in range(nb):
                co[i, k] = c['coeff'][k]

        def colr(key):
            a = ctx.zeros((n, 1))
            for i, c in enumerate(cc):
                a[i, 0] = c[key]
            return a

        def coli(key):
            a = ctx.intarr([c[key] for c in cc])
            return a.reshape((n, 1))
        zz = ctx.zeros((n, 3))
        return dict(z=colr('z'), zerr=colr('zerr'), zwarn=coli('zwarn'), chi2=colr('chi2'), zz=zz, zzchi2=zz.copy(),
                    coeff=co, fitmethod=np.array([[template.method]] * n), npixels=coli('npix'))
    ctx.rr.patch('zscan', 'calc_zchi2_targets', scan)
    ctx.rr.patch('zfind', 'calc_zchi2_targets', scan)
    ctx.rr.patch('fitz', 'fitz', fit)
    ctx.rr.patch('zfind', 'fitz', fit)
    dts = [lib.DTemplate(t, {}) for t in tmpls]
    return fz.zfind(DistT(tgs, order), dts, nminima=nminima)


def rows_of(zfit, tid):
    return [i for i in range(len(zfit['targetid'])) if int(zfit['targetid'][i]) == tid]


def verify(ctx, zfit, tgs, tmpls, cands, nminima):
    T = {t.full_type: t for t in tmpls}
    maxnb = max(t.nbasis for t in tmpls)
    for tg in tgs:
        rows = rows_of(zfit, tg.id)
        allc = [(ft, c) for ft in cands[tg.id] for c in cands[tg.id][ft][:nminima]]
        ctx.check(len(rows) >= min(1, len(allc)), 'every target is in the table')
        used = []
        for r in rows:
            st, sub = str(zfit['spectype'][r]).strip(), str(zfit['subtype'][r]).strip()
            ft = st + (':::' + sub if sub else '')
            ctx.check(ft in T, 'spectral type is one of the templates')
            # identify the candidate by its tag (zerr)
            m = [(k, c) for k, (f, c) in enumerate(allc) if f == ft and c['zerr'] == float(zfit['zerr'][r])]
            ctx.check(len(m) == 1, 'row is a candidate of that target and template')
            if len(m) != 1:
                return
            k, c = m[0]
            used.append(k)
            ctx.eq(zfit['z'][r], c['z'], 'row intact: redshift')
            ctx.eq(zfit['chi2'][r], c['chi2'], 'row intact: chi2')
            nb = T[ft].nbasis
            ctx.check(int(zfit['ncoeff'][r]) == nb, 'row intact: number of coefficients')
            co = zfit['coeff'][r]
            exp = list(c['coeff']) + [0] * maxnb
            ctx.eq([co[q] for q in range(len(co))], exp[:len(co)], 'row intact: coefficients, zero padded')
            ctx.check(len(co) >= nb, 'all coefficients kept')
        ctx.check(len(set(used)) == len(used), 'no candidate twice')
        ctx.check([int(zfit['znum'][r]) for r in rows] == list(range(len(rows))), 'candidates numbered from 0 in order')
        cs = [allc[k] for k in used]
        # ranking
        for (fa, a), (fb, b) in zip(cs[:-1], cs[1:]):
            ba, bb = bool(a['zwarn'] & BADFIT), bool(b['zwarn'] & BADFIT)
            ctx.check(ba <= bb, 'good fits ranked before bad fits')
            if ba == bb:
                ctx.check(a['chi2'] <= b['chi2'], 'ranked by chi2')
        # trimming
        types = {}
        for ft, c in cs:
            types.setdefault(T[ft].template_type, []).append(c)
        for st, lst in types.items():
            ctx.check(len(lst) <= nminima, 'at most the requested number of candidates per spectral type')
        for k, (ft, c) in enumerate(allc):
            if k in used:
                continue
            lst = types.get(T[ft].template_type, [])
            ctx.check(len(lst) == nminima, 'candidates only dropped when the type is full')
            for o in lst:
                bo, bc = bool(o['zwarn'] & BADFIT), bool(c['zwarn'] & BADFIT)
                ctx.check(bo < bc if bo != bc else o['chi2'] <= c['chi2'], 'dropped candidates are not better than kept')
        # delta chi2 and flags
        lim = [100.0 if T[ft].template_type == 'STAR' else 1000.0 for ft, c in cs]
        for i, (r, (ft, c)) in enumerate(zip(rows, cs)):
            best, small = None, []
            for j, (fj, cj) in enumerate(cs):
                if i == j or cj['zwarn'] & BADFIT:
                    continue
                dv = abs(cj['zc'] - c['zc']) * C / (1 + c['zc'])
                L = min(lim[i], lim[j])
                if dv >= L:
                    small.append(absv(ctx, cj['chi2'] - c['chi2']) < 9)
                    if j > i:
                        v = cj['chi2'] - c['chi2']
                        best = v if best is None else ctx.min(best, v)
            ctx.eq(zfit['deltachi2'][r], 0 if best is None else best, 'delta chi2')
            want = c['zwarn']
            npix = c['npix']
            if ctx.truth(npix == 0):
                want |= NODATA
                ctx.cover('nodata')
            if ctx.truth(npix < 10 * T[ft].nbasis):
                want |= LITTLE
                ctx.cover('little')
            if small and ctx.truth(ctx.Or(*small)):
                want |= SMALLD
                ctx.cover('smalldelta')
            ctx.check(zfit['zwarn'][r] == want, 'warning bits are exactly the documented conditions')
        for mk, mv in tg.meta.items():
            if mk.endswith('_datatype'):
                continue
            for r in rows:
                v = zfit[mk][r]
                ctx.check((int(v) if isinstance(mv, int) else v) == mv, 'target metadata attached to the right rows')


def cand(ctx, name, zc, zw, npix, nb, chi2=None):
    return dict(z=ctx.const(zc), zc=zc, zerr=float(sum(ord(ch) * (7 ** i) for i, ch in enumerate(name)) % 100003),
                zwarn=zw, chi2=ctx.real('chi' + name, 0, 1000) if chi2 is None else ctx.const(chi2),
                npix=npix, coeff=[ctx.real(f'co{name}_{k}') for k in range(nb)])


def h_rank(ctx, nminima, badset):
    """one target; GALAXY with 2 candidates, two STAR subtypes, QSO"""
    LB = 'B' + 'x' * 29                # as long as an archetype mixture
    tm = [lib.template(ctx, ctx.arr([0.1, 0.2]), 1, 'STAR', LB), lib.template(ctx, ctx.arr([0.1, 0.2]), 2, 'GALAXY'),
          lib.template(ctx, ctx.arr([0.1, 0.2]), 1, 'STAR', 'A')]
    zws = [[0, BADMIN][ctx.choice(f'bad{i}', 2)] if i in badset else 0 for i in range(4)]
    npix = 100
    cs = {77: {'STAR:::' + LB: [cand(ctx, 'sb', 0.0001, zws[0], npix, 1)],
               'GALAXY': [cand(ctx, 'g0', 0.5, zws[1], npix, 2), cand(ctx, 'g1', 0.502, zws[2], npix, 2)],
               'STAR:::A': [cand(ctx, 'sa', 0.0008, zws[3], npix, 1)]}}
    if not ctx.truth(cs[77]['GALAXY'][0]['chi2'] <= cs[77]['GALAXY'][1]['chi2']):
        ctx.assume(False)
    tg = [Tg(77, dict(NUM=5, FIBER=12))]
    res, zfit = run(ctx, tg, tm, cs, nminima)
    verify(ctx, zfit, tg, tm, cs, nminima)
    ctx.check(list(res.keys()) == [77] and set(res[77].keys()) == {'STAR:::' + LB, 'GALAXY', 'STAR:::A'},
              'scan results returned per target and template')
    ctx.cover('done')


def h_flags(ctx, zc1, star, small=0):
    """coverage flags for any pixel count, velocity limits for pairs"""
    npix = ctx.int('npix', 0, 40)
    tt = ('STAR', 'K') if star else ('GALAXY', '')
    tm = [lib.template(ctx, ctx.arr([0.1, 0.2]), 3, *tt)]
    ft = tm[0].full_type
    b = ctx.choice('b1', 2)
    cs = {5: {ft: [cand(ctx, 'p', 0.3, 0, npix, 3), cand(ctx, 'q', zc1, [0, FITLIMIT][b], npix, 3)]}}
    if b == 0:
        ctx.assume(cs[5][ft][0]['chi2'] <= cs[5][ft][1]['chi2'])
    if small:                           # each fit is judged by its own number of coefficients
        tm.append(lib.template(ctx, ctx.arr([0.1, 0.2]), small, 'QSO'))
        cs[5]['QSO'] = [cand(ctx, 's', 2.3, 0, npix, small)]
    tg = [Tg(5, {})]
    res, zfit = run(ctx, tg, tm, cs, 3)
    verify(ctx, zfit, tg, tm, cs, 3)
    ctx.cover('done')


def h_multi(ctx, ntarg, missing):
    """several targets: no row lost or mixed, also when a target has no candidate for some template"""
    tm = [lib.template(ctx, ctx.arr([0.1, 0.2]), 1, 'GALAXY'), lib.template(ctx, ctx.arr([0.1, 0.2]), 2, 'QSO')]
    ids = [39627788000000000 + 4, 39627788000000000 + 5, -3][:ntarg]
    miss = ctx.choice('miss', 2 * ntarg + 1) if missing else 2 * ntarg
    cs = {}
    for n, t in enumerate(ids):
        cs[t] = {'GALAXY': [cand(ctx, f'g{n}', 0.4 + 0.01 * n, 0, 50 + n, 1)],
                 'QSO': [cand(ctx, f'q{n}', 1.4 + 0.01 * n, 0, 50 + n, 2)]}
        if miss // 2 == n:
            cs[t][['GALAXY', 'QSO'][miss % 2]] = []
    tg = [Tg(t, dict(BRICK=100 + t % 1000, NAME='n%d' % t, BRICK_datatype='i4', REF=t + 1, REF_datatype='i8')) for t in ids]
    order = [ids[1], ids[0]] + ids[2:]
    res, zfit = run(ctx, tg, tm, cs, 2, order)
    verify(ctx, zfit, tg, tm, cs, 2)
    ctx.check(sorted({int(x) for x in zfit['targetid']}) == sorted(ids), 'exactly the input targets')
    seen = []
    for x in zfit['targetid']:
        if not seen or seen[-1] != int(x):
            seen.append(int(x))
    ctx.check(seen == order, 'targets contiguous and in input order')
    ctx.check(zfit.colnames[0] == 'targetid', 'target id is the first column')
    ctx.cover('done')


def h_nomin(ctx, which):
    """a target for which no template has a minimum must not take the other targets down"""
    tm = [lib.template(ctx, ctx.arr([0.1, 0.2]), 1, 'GALAXY'), lib.template(ctx, ctx.arr([0.1, 0.2]), 2, 'QSO')]
    cs = {}
    for n, t in enumerate([8, 9]):
        cs[t] = {'GALAXY': [cand(ctx, f'g{n}', 0.4, 0, 50, 1)], 'QSO': [cand(ctx, f'q{n}', 1.4, 0, 50, 2)]}
    cs[[8, 9][which]] = {'GALAXY': [], 'QSO': []}
    tg = [Tg(8, {}), Tg(9, {})]
    res, zfit = run(ctx, tg, tm, cs, 2)
    verify(ctx, zfit, tg, tm, cs, 2)
    ctx.cover('done')


def configs(tier):
    th = tier == 'thorough'
    c = []

    def add(name, fn, bounds, cover=('done',), w=1, **params):
        c.append(dict(name=name, fn=fn, params=params, bounds=bounds, cover=list(cover), validate=4, weight=w))
    add('delta3', h_delta, '3 candidates, symbolic chi2, one symbolic redshift, bad-fit bits', w=6, n=3, zmode='one', same=True)
    add('delta2', h_delta, '2 candidates, symbolic chi2, redshifts and bad-fit bits', w=6, n=2, zmode='sym', same=True)
    add('delta2_limits', h_delta, '2 candidates, all symbolic, separate velocity limits', w=6, n=2, zmode='sym', same=False)
    add('delta3_limits', h_delta, '3 candidates, separate velocity limits, fixed redshifts', w=8, n=3, zmode='fix', same=False)
    add('delta4', h_delta, '4 candidates, fixed redshifts', w=6, n=4, zmode='fix', same=True)
    add('sort_dict3', h_sort, '3 rows, 4 flag patterns each', w=3, n=3, what='dict')
    add('sort_table3', h_sort, '3 rows, astropy-table variant', w=3, n=3, what='table')
    add('cols3', h_cols, '3 rows, 2 keys', n=3, first=True)
    add('cols3_rev', h_cols, '3 rows, 2 keys, last key first', n=3, first=False)
    add('rank1', h_rank, '4 candidates over 3 templates, nminima 1, symbolic chi2, 2 of them possibly bad',
        ('done', 'smalldelta'), w=9, nminima=1, badset=[1, 3])
    add('rank2', h_rank, '4 candidates over 3 templates, nminima 2, symbolic chi2', ('done', 'smalldelta'), w=9,
        nminima=2, badset=[0] if not th else [0, 1])
    if th:
        add('rank3', h_rank, '4 candidates over 3 templates, nminima 3', ('done', 'smalldelta'), w=9, nminima=3,
            badset=[0, 1, 2, 3])
    add('flags_far', h_flags, 'symbolic pixel count, distinct redshifts', ('done', 'nodata', 'little', 'smalldelta'), w=3,
        zc1=0.31, star=False)
    add('flags_near', h_flags, 'symbolic pixel count, redshifts 700 km/s apart', ('done', 'nodata', 'little'), w=3,
        zc1=0.303, star=False)
    add('flags_star', h_flags, 'stars 700 km/s apart', ('done', 'nodata', 'little', 'smalldelta'), w=3, zc1=0.303, star=True)
    add('flags_sizes', h_flags, 'symbolic pixel count, templates with 3 and 1 coefficients', ('done', 'nodata', 'little', 'smalldelta'),
        w=3, zc1=0.31, star=False, small=1)
    add('multi2', h_multi, '2 targets, 2 templates', w=3, ntarg=2, missing=False)
    add('multi3_missing', h_multi, '3 targets, any one (target, template) without a minimum', w=3, ntarg=3, missing=True)
    add('nomin', h_nomin, '2 targets, one without any minimum', which=0)
    add('nomin_last', h_nomin, '2 targets, the last without any minimum', which=1)
    return c
