"""C18: template files: the vectors, grids, types and models they describe, found and named consistently."""
import os
import shutil
import subprocess
import sys
import tempfile
import types

import numpy as np

from .. import fakefs, lib, par
from . import c19_archetypes as c19

PROPERTY = 'C18'
ASSUMPTIONS = ['FITS files: in-memory model with the semantics of astropy.io.fits (real files in replays); directories are real temporary ones',
               'header texts and redshift ranges from lists, numbers symbolic']


def mount(ctx, env=None):
    if env is not None and ctx.symbolic:
        pass
    d, fs = c19.mount(ctx)
    return d, fs


def write_template(ctx, d, fs, name, flux, hdr, redshifts=None, extname='BASIS_VECTORS'):
    """hdr values may be symbolic"""
    path = os.path.join(d, name)
    nb, nw = flux.shape
    if ctx.symbolic:
        h = dict(NAXIS=2, NAXIS1=nw, NAXIS2=nb, EXTNAME=extname)
        h.update(hdr)
        hdus = [fakefs.PHDU(), fakefs.FHDU(flux, h)]
        if redshifts is not None:
            hdus.append(fakefs.FHDU(redshifts, dict(EXTNAME='REDSHIFTS')))
        fs.files[fs.norm(path)] = fakefs.HDUL(hdus, fs)
    else:
        from astropy.io import fits
        x = fits.ImageHDU(np.asarray(flux, dtype=float), name=extname)
        for k, v in hdr.items():
            x.header[k] = v
        hl = [fits.PrimaryHDU(), x]
        if redshifts is not None:
            hl.append(fits.ImageHDU(np.asarray(redshifts, dtype=float), name='REDSHIFTS'))
        fits.HDUList(hl).writeto(path)
    return path


def igm_of(rrtype, version, key):
    if key is not None:
        return key
    if rrtype == 'STAR':
        return 'None'
    return {('GALAXY', '2.6'): 'Calura12', ('QSO', '0.1'): 'Calura12', ('QSO', '1.0'): 'Calura12', ('QSO', '1.1'): 'Kamble20'}.get((rrtype, version))


def default_grid(rrtype, opts):
    r = {'GALAXY': (-0.005, 1.7, 3e-4), 'STAR': (-0.002, 0.00201, 4e-5), 'QSO': (0.05, 6.0, 5e-4)}[rrtype]
    o = opts.get('zscan_' + rrtype.lower())
    if o is not None:
        r = [float(x) for x in o.split(',')]
    lo, hi, dz = r
    if rrtype != 'STAR':
        lo, hi = np.log10(1 + lo), np.log10(1 + hi)
    g = [lo + dz * i for i in range(int(np.ceil((hi - lo) / dz - 1e-9)))]
    return g if rrtype == 'STAR' else [10 ** x - 1 for x in g]


def grid(ctx, a):
    return [float(x) for x in a]


def same_grid(ctx, got, exp, msg):
    ctx.check(len(got) == len(exp) and np.allclose(np.array(got), np.array(exp), rtol=0, atol=1e-9), msg)


def pick(ctx, name, values):
    return values[ctx.choice(name, len(values))] if len(values) > 1 else values[0]


def h_load(ctx, types_=('GALAXY',), versions=('1.0',), igms=(None,), subs=(None,), methods=(None,), zfile=(False,), opts=({},), loglam=(None,),
           nb=2, nw=4, where=('path',)):
    """one file; what Template reports is what the file says, with the documented defaults"""
    d, fs = mount(ctx)
    raw = pick(ctx, 'type', types_)
    ver, igm, sub, meth = pick(ctx, 'version', versions), pick(ctx, 'igm', igms), pick(ctx, 'sub', subs), pick(ctx, 'method', methods)
    zf, op, ll = pick(ctx, 'zfile', zfile), pick(ctx, 'opts', opts), pick(ctx, 'loglam', loglam)
    wh = pick(ctx, 'where', where)
    if ll:
        crval, cdelt = ctx.const(3.5), ctx.const(0.25)
    else:
        crval, cdelt = ctx.real('crval', 100, 5000), ctx.real('cdelt', 0.1, 10)
        ctx.require(ctx.And(crval > 0, cdelt > 0))
    flux = ctx.reals('f', (nb, nw))
    hdr = dict(CRVAL1=crval, CDELT1=cdelt, RRTYPE=raw)
    for k, v in dict(LOGLAM=ll, VERSION=ver, RRIGM=igm, RRSUBTYP=sub, RRMETHOD=meth).items():
        if v is not None:
            hdr[k] = v
    z = ctx.arr([-0.0078125, 0.5, 6.25]) if zf else None
    path = write_template(ctx, d, fs, 'rrtemplate-x.fits', flux, hdr, z)
    T = ctx.rr.load('redrock.templates').Template
    arg = path
    if wh == 'dir':
        arg = 'rrtemplate-x.fits'
        ctx.rr.patch('templates', 'get_template_dir', lambda *a: d)
    elif wh == 'missing':
        arg = 'rrtemplate-y.fits'
        ctx.rr.patch('templates', 'get_template_dir', lambda *a: d)
    rrtype = raw.strip().upper()
    eigm = igm_of(rrtype, ver, igm)
    emeth = meth.upper() if meth else 'PCA'
    bad = eigm is None or emeth not in ('PCA', 'NMF') or (not zf and rrtype not in ('GALAXY', 'STAR', 'QSO')) or wh == 'missing'
    try:
        t = T(arg, **op)
        ok = True
    except (ValueError, OSError) as e:
        ok, t = False, None
    ctx.check(ok == (not bad), 'refused exactly when type, absorption model, method or file is unknown')
    if not ok:
        ctx.cover('refused')
        return
    ctx.cover('loaded')
    ctx.check((t.template_type, t.sub_type, t.method, t.solve_matrices_algorithm, t.igm_model) ==
              (rrtype, (sub or '').strip().upper(), emeth, emeth, eigm), 'type, subtype, method, absorption model')
    ctx.check(t.version == (ver or 'unknown') and t.filename == arg, 'version and file name')
    ctx.check(t.full_type == rrtype + (':::' + t.sub_type if t.sub_type else ''), 'full type')
    ctx.check((t.nbasis, t.nwave) == (nb, nw) and t.flux.shape == (nb, nw) and t.wave.shape == (nw,), 'sizes')
    ctx.eq(t.flux, flux, 'basis vectors')
    w = [crval + cdelt * i for i in range(nw)]
    if ll:
        w = [10 ** (3.5 + 0.25 * i) for i in range(nw)]
        ctx.check(np.allclose([float(x) for x in t.wave], w, rtol=1e-9), 'logarithmic wavelengths')
    else:
        ctx.eq([t.wave[i] for i in range(nw)], w, 'linear wavelengths')
    ctx.eq([t.minwave, t.maxwave], [t.wave[0], t.wave[nw - 1]], 'wavelength limits')
    if zf:
        ctx.eq([t.redshifts[i] for i in range(3)], [z[i] for i in range(3)], 'redshifts of the file')
        ctx.check(len(t.redshifts) == 3, 'redshifts of the file')
    else:
        same_grid(ctx, grid(ctx, t.redshifts), default_grid(rrtype, op), 'redshift grid of the type')


def h_oii(ctx, rrtype, method, nb=2, nw=5):
    """the [OII] part of a galaxy template is exactly 3724-3733 A"""
    w0 = ctx.real('w0', 3700, 3740)
    step = 3.0
    wave = ctx.arr([w0 + step * i for i in range(nw)])
    flux = ctx.reals('f', (nb, nw))
    t = ctx.rr.templates.Template(spectype=rrtype, subtype='', redshifts=ctx.arr([0.0, 1.0]), wave=wave, flux=flux, method=method)
    if rrtype == 'GALAXY' and method == 'PCA':
        sel = [i for i in range(nw) if ctx.truth(ctx.And(wave[i] >= 3724, wave[i] <= 3733))]
        ctx.check(t.OIItemplate.shape == (nb, len(sel)), 'pixels of the doublet')
        for b in range(nb):
            ctx.eq([t.OIItemplate[b, k] for k in range(len(sel))], [flux[b, i] for i in sel], 'fluxes of the doublet')
        ctx.cover('some' if sel else 'none')
    else:
        ctx.check(not hasattr(t, 'OIItemplate'), 'only for galaxy PCA templates')
        ctx.cover('no')


NAMES = ['rrtemplate-GALAXY-None-v2.6.fits', 'rrtemplate-QSO-HIZ-v1.1.fits', 'rrtemplate-STAR-F-v0.1.fits']


def touch(p, text=''):
    with open(p, 'w') as f:
        f.write(text)


def clean_env(ctx, **new):
    old = {k: os.environ.pop(k, None) for k in ('RR_TEMPLATE_DIR', 'RR_ARCHETYPE_DIR')}
    os.environ.update(new)

    def back():
        for k, v in old.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
    ctx.onclose(back)


def touch_dir(path):
    os.makedirs(path)


def h_find(ctx, how, default):
    """find_templates: directory, list file, single file, environment"""
    d = os.path.realpath(tempfile.mkdtemp(prefix='symrr_'))
    ctx.onclose(lambda: shutil.rmtree(d, ignore_errors=True))
    td = d + '/tmpl'
    os.mkdir(td)
    other = d + '/other'
    os.mkdir(other)
    have = [bool(ctx.choice('have%d' % i, 2)) for i in range(3)]
    for n, h in zip(NAMES, have):
        if h:
            touch(f'{td}/{n}')
    touch(f'{td}/rrarchetype-galaxy.fits')
    touch(f'{td}/rrtemplate-notes.md')
    touch(f'{other}/abs.fits')
    lines = ['# templates', '', 'x', None, '  ' + NAMES[2] + '   # trailing comment', '#' + NAMES[0], None]
    first, last = [(0, 'abs'), (1, 0), ('abs', 1), (0, 1), ('rel', 0)][ctx.choice('lines', 5)]

    def ln(q):
        return f'{other}/abs.fits' if q == 'abs' else '../other/abs.fits' if q == 'rel' else NAMES[q]
    lines[3], lines[6] = ln(first), '\t' + ln(last) + ' '
    exp, miss = [], False
    for q in (first, 2, last):
        if q in ('abs', 'rel'):
            exp.append(f'{other}/abs.fits')
        else:
            exp.append(f'{td}/{NAMES[q]}')
            miss = miss or not have[q]
    lists = [x for x in lines if x != 'x']
    if default:
        touch(f'{td}/templates-default.txt', '\n'.join(lists) + '\n')
    glob = sorted(f'{td}/{n}' for n, h in zip(NAMES, have) if h)
    env = {}
    arg = None
    if how == 'dir':
        arg = td
    elif how == 'path':
        import pathlib
        arg = pathlib.Path(td)
    elif how == 'env':
        env['RR_TEMPLATE_DIR'] = td
    elif how in ('txt', 'pathtxt'):
        arg = f'{td}/my.txt'
        touch(arg, '\n'.join(lists))
        if how == 'pathtxt':
            import pathlib
            arg = pathlib.Path(arg)
    elif how == 'both':
        env['RR_TEMPLATE_DIR'] = other
        arg = td
    elif how in ('single', 'pathsingle'):
        have[0] = True
        arg = f'{td}/{NAMES[0]}'
        touch(arg)
        if how == 'pathsingle':
            import pathlib
            arg = pathlib.Path(arg)
    elif how == 'list':
        arg = [f'{other}/abs.fits', f'{td}/{NAMES[1]}']
    elif how == 'nowhere':
        arg = d + '/nowhere'
    elif how == 'junk':
        arg = f'{td}/rrtemplate-notes.md'
    elif how in ('herelist', 'heredir', 'here'):
        back = os.getcwd()
        ctx.onclose(lambda: os.chdir(back))
        os.chdir(d if how == 'heredir' else td)
        arg = {'herelist': 'my.txt', 'heredir': 'tmpl', 'here': '.'}[how]
        if how == 'herelist':
            touch(f'{td}/my.txt', '\n'.join(lists))
    clean_env(ctx, **env)
    m = ctx.rr.load('redrock.templates')
    f = m.find_templates
    loaded = []

    class T:
        template_type, sub_type = 'GALAXY', ''

        def __init__(self, name, **k):
            loaded.append(str(name))
    ctx.rr.patch('templates', 'Template', T)
    try:
        got = [str(x) for x in f(arg)]
    except ValueError:
        got = None
    if how in ('nowhere', 'junk'):
        want = None
    elif how in ('single', 'pathsingle'):
        want = [str(arg)]
    elif how == 'list':
        want = arg
    elif how in ('txt', 'pathtxt', 'herelist') or default:
        want = None if miss else exp
    else:
        want = glob
    norm = (lambda x: x if x is None else [os.path.abspath(y) for y in x])
    ctx.check(norm(got) == norm(want), 'exactly the listed templates, in order; a missing one is refused')
    try:
        m.load_templates(arg)
    except ValueError:
        loaded = None
    ctx.check(norm(loaded) == norm(want), 'and exactly those are loaded')
    ctx.cover('found' if want else 'refused')


def h_arch(ctx, how):
    d = os.path.realpath(tempfile.mkdtemp(prefix='symrr_'))
    ctx.onclose(lambda: shutil.rmtree(d, ignore_errors=True))
    td, other = d + '/a', d + '/b'
    os.mkdir(td)
    os.mkdir(other)
    have = [bool(ctx.choice('have%d' % i, 2)) for i in range(3)]
    names = ['rrarchetype-qso.fits', 'rrarchetype-galaxy.fits', 'rrarchetype-star.fits']
    for n, h in zip(names, have):
        if h:
            touch(f'{td}/{n}')
    touch(f'{other}/rrarchetype-x.fits')
    touch(f'{td}/rrtemplate-galaxy.fits')
    want = sorted(f'{td}/{n}' for n, h in zip(names, have) if h)
    env, arg = {}, None
    if how == 'env':
        env['RR_ARCHETYPE_DIR'] = td
    elif how == 'both':
        env['RR_ARCHETYPE_DIR'] = other
        arg = td
    elif how == 'file':
        arg = f'{other}/rrarchetype-x.fits'
        want = [arg]
    elif how == 'expand':
        env['RR_ARCHETYPE_DIR'] = d
        arg = '$RR_ARCHETYPE_DIR/a'
        want = [w.replace(td, arg) for w in want]
    elif how == 'none':
        want = None
    clean_env(ctx, **env)
    try:
        got = list(ctx.rr.load('redrock.archetypes').find_archetypes(arg))
    except OSError:
        got = None
    ctx.check(got == want, 'the archetype files of the directory asked for')
    ctx.cover('done')


class Tx:
    def __init__(self, ty, sub, ver, name):
        self.template_type, self.sub_type, self.version, self.filename = ty, sub, ver, name
        self.full_type = ty + (':::' + sub if sub else '')
        self.method = 'PCA'


def h_header(ctx, n, form, old, env):
    """names stored in an output header lead back to the same template files"""
    clean_env(ctx, **(dict(RR_TEMPLATE_DIR='/envdir') if env else {}))
    if ctx.symbolic:
        from ..desienv import Env
        Env(ctx)
    pool = [('GALAXY', '', '2.6'), ('QSO', 'LOZ', '1.1'), ('STAR', 'F', '0.1'), ('STAR', '', '1.0'), ('QSO', '', '0.1')]
    ts = []
    for i in range(n):
        ty, sub, ver = pool[(i + ctx.choice('t%d' % i, 2)) % 5] if i < 3 else pool[i % 5]
        std = f'rrtemplate-{ty}-{sub or None}-v{ver}.fits'
        name = std if old else ['/some/dir/' + std, f'other{i}.fits'][ctx.choice('n%d' % i, 2) if i < 3 else 0]
        ts.append(Tx(ty, sub, ver, name))
    arg = ts if form == 'list' else {(i, t.sub_type): t for i, t in enumerate(ts)}
    hdr = ctx.rr.load('redrock.external.desi')._get_header(arg, archetypes=None, spec_header=dict(TILEID=5, OTHER=6))
    ctx.check('TILEID' in hdr and hdr['TILEID'] == 5 and 'OTHER' not in hdr, 'observation keywords passed on')
    if old:
        for i in range(n):
            del hdr[f'TEMFIL{i:02d}']
            if ts[i].template_type == 'STAR' and ts[i].version == '0.1':
                hdr[f'TEMVER{i:02d}'] = 'unknown'
    m = ctx.rr.load('redrock.templates')
    f = m.header2templatefiles
    ctx.check(m.get_template_dir() == '/envdir' if env else m.get_template_dir().endswith('data/templates'), 'default directory')
    got = f(hdr, template_dir='/tt')
    ctx.check(got == ['/tt/' + os.path.basename(t.filename) for t in ts], 'template files of the header, in order')
    got = f(hdr)
    ctx.check(got == [('/envdir/' if env else m.get_template_dir() + '/') + os.path.basename(t.filename) for t in ts], 'template files of the header, in order, in the default directory')
    ctx.cover('done')


def h_header_keys(ctx, slots, forms):
    """headers written by others: any numbering, TEMFIL and TEMNAM + TEMVER mixed, also incomplete"""
    clean_env(ctx)
    pool = [('GALAXY', '2.6'), ('QSO:::LOZ', '1.1'), ('STAR:::F', 'unknown'), ('STAR', '1.0 ')]
    hdr, want = dict(TILEID=5), []
    for k, i in enumerate(slots):
        ty, ver = pool[k % 4]
        form = ctx.choice(f'form{k}', forms)
        if form == 1:
            hdr[f'TEMFIL{i:02d}'] = f'f{i}.fits'
            want.append(f'f{i}.fits')
        elif form in (2, 3):
            hdr[f'TEMNAM{i:02d}'], hdr[f'TEMVER{i:02d}'] = ty, ver
            if form == 3:
                hdr[f'TEMFIL{i:02d}'] = f'g{i}.fits'
            t = (ty + ':::').split(':::')
            v = '0.1' if ver == 'unknown' else ver.strip()
            want.append(f'g{i}.fits' if form == 3 else f'rrtemplate-{t[0]}-{t[1] or None}-v{v}.fits')
        elif form == 4:
            hdr[f'TEMNAM{i:02d}'] = ty
    got = ctx.rr.load('redrock.templates').header2templatefiles(hdr, template_dir='/tt')
    ctx.check(list(got) == ['/tt/' + w for w in want], 'template files of the header, in order', f'{hdr} {got}')
    ctx.cover('done')


def h_list(ctx, kinds, opts, size=0):
    """load_dist_templates: one entry per file in order, ranges for the right types, the same on every rank"""
    d, fs = mount(ctx)
    GR = dict(b=ctx.arr([3.5, 4.0, 4.5]))
    paths, exp = [], []
    for k, (ty, sub, zf) in enumerate(kinds):
        flux = ctx.reals(f'f{k}_', (2, 4)) if size == 0 else ctx.arr([[1.0, 2.0, 3.0, 4.0 + k], [4.0, 3.0, 2.0, 1.0]])
        hdr = dict(CRVAL1=0.5, CDELT1=3.0, RRTYPE=ty, RRSUBTYP=sub, RRIGM='None', VERSION='%d' % k)
        z = ctx.arr([0.25, 0.5]) if zf else None
        paths.append(write_template(ctx, d, fs, f'rrtemplate-{k}.fits', flux, hdr, z))
        exp.append((ty, sub, '%d' % k, [0.25, 0.5] if zf else default_grid(ty, opts), flux))
    m = ctx.rr.load('redrock.templates')

    def judge(dts, part=None):
        ctx.check([(t.template.template_type, t.template.sub_type, t.template.version) for t in dts] == [e[:3] for e in exp], 'one per file, in order')
        for t, e in zip(dts, exp):
            same_grid(ctx, grid(ctx, t.template.redshifts), e[3], 'redshift range of the type')
            ctx.eq(t.template.flux, e[4], 'basis vectors')
            z = grid(ctx, t.local.redshifts)
            if part is None:
                same_grid(ctx, z, e[3], 'all redshifts')
            else:
                part.setdefault(id(e), []).extend(z)
            ctx.check(list(t.local.data) == ['b'] and t.local.data['b'].shape == (len(z), 3, 2), 'rebinned to the grid')
    if not size:
        judge(m.load_dist_templates(GR, templates=paths, **opts))
        lt = m.load_templates(paths, asdict=True, **opts)
        ctx.check(list(lt) == [e[:2] for e in exp], 'dictionary by type and subtype')
        ctx.check([t.version for t in m.load_templates(paths, **opts)] == [e[2] for e in exp], 'list in order')
    else:
        part = {}
        opened = []
        T = m.Template

        def counted(*a, **k):
            opened.append(1)
            return T(*a, **k)
        ctx.rr.patch('templates', 'Template', counted)

        def rank(comm):
            dts = m.load_dist_templates(GR, templates=paths, comm=comm, **opts)
            judge(dts, part)
        par.run_ranks(ctx, size, rank)
        for e in exp:
            same_grid(ctx, sorted(part[id(e)]), e[3], 'the ranks hold all redshifts once')
        ctx.check(len(opened) == len(kinds), 'files are read by one rank only')
    ctx.cover('done')


def h_from_header(ctx, kinds):
    """templates named by the header of a result are read again"""
    env = ctx.flag('env')
    clean_env(ctx, **(dict(RR_TEMPLATE_DIR='/in/') if env else {}))
    d, fs = mount(ctx)
    if env:
        os.environ['RR_TEMPLATE_DIR'] = d
    m = ctx.rr.load('redrock.templates')
    hdr, exp = dict(TILEID=5), []
    for k, (ty, sub, ver) in enumerate(kinds):
        name = f'rrtemplate-{ty}-{sub or None}-v{ver}.fits'
        flux = ctx.reals(f'f{k}_', (2, 3))
        write_template(ctx, d, fs, name, flux, dict(CRVAL1=0.5, CDELT1=3.0, RRTYPE=ty, RRSUBTYP=sub, RRIGM='None', VERSION=ver), ctx.arr([0.25, 0.5]))
        if ctx.flag(f'file{k}'):
            hdr[f'TEMFIL{k:02d}'] = name
        hdr[f'TEMNAM{k:02d}'], hdr[f'TEMVER{k:02d}'] = ty + (':::' + sub if sub else ''), ver
        exp.append((ty, sub, ver, flux))
    asdict = ctx.flag('asdict')
    got = m.load_templates_from_header(hdr, asdict=asdict, **({} if env else dict(template_dir=d)))
    if asdict:
        ctx.check(list(got) == [e[:2] for e in exp], 'dictionary by type and subtype')
        got = list(got.values())
    ctx.check([(t.template_type, t.sub_type, t.version) for t in got] == [e[:3] for e in exp], 'the templates of the header, in order')
    for t, e in zip(got, exp):
        ctx.eq(t.flux, e[3], 'basis vectors')
    ctx.cover('done')


def h_install(ctx):
    """install_redrock_templates: into the directory the templates are then read from, never into one that is there"""
    d = os.path.realpath(tempfile.mkdtemp(prefix='symrr_'))
    ctx.onclose(lambda: shutil.rmtree(d, ignore_errors=True))
    inst = d + '/code/data/templates'
    other = d + '/other'
    os.makedirs(other)
    touch(other + '/rrtemplate-other.fits')
    clean_env(ctx, **(dict(RR_TEMPLATE_DIR=other) if ctx.flag('env') else {}))
    out = [None, d + '/out', d + '/my/out.git'][ctx.choice('out', 3)]
    dest = out or inst
    there = ctx.flag('there')
    if there:
        touch_dir(dest)
    url = [None, 'https://x.org/a/b', 'https://x.org/a/b.git'][ctx.choice('url', 3)]
    ver = [None, 'main', '1.2'][ctx.choice('version', 3)]
    rc = [0, 1, 128][ctx.choice('rc', 3)]
    works = rc == 0
    calls, read = [], []
    tm = ctx.rr.load('redrock.templates')

    def where(template_path=None):
        return template_path if template_path is not None else os.environ.get('RR_TEMPLATE_DIR', inst)
    ctx.rr.patch('templates', 'get_template_dir', where)

    def template(filename, *a, **k):
        read.append(str(filename))
        return Tx('GALAXY', '', '1', str(filename))
    ctx.rr.patch('templates', 'Template', template)

    def run(cmd, *a, check=False, **k):
        cmd = cmd.split() if isinstance(cmd, str) else [str(c) for c in cmd]
        calls.append(cmd)
        if rc == 0:
            touch_dir(cmd[-1])
            touch(cmd[-1] + '/rrtemplate-new.fits')
        elif check:
            raise subprocess.CalledProcessError(rc, cmd)
        return types.SimpleNamespace(returncode=rc, stdout=b'', stderr=b'fatal: no')
    m = ctx.rr.script('install_redrock_templates')
    m.subprocess = types.SimpleNamespace(**vars(subprocess))
    m.subprocess.run = run
    m.subprocess.call = lambda cmd, *a, **k: run(cmd).returncode
    m.subprocess.check_call = m.subprocess.check_output = lambda cmd, *a, **k: run(cmd, check=True).returncode
    m.print = lambda *a, **k: None
    old = sys.argv
    sys.argv = ['install_redrock_templates'] + (['--outdir', out] if out else []) + (['--template-url', url] if url else []) + (['-v', ver] if ver else [])
    try:
        status = m.main()
    except SystemExit as e:
        status = e.code
    except subprocess.CalledProcessError:
        status = 1
    finally:
        sys.argv = old
    if there:
        ctx.check(not calls and os.listdir(dest) == [], 'a directory that is there is left alone')
        ctx.check(status not in (0, None), 'and this is an error')
        ctx.cover('there')
        return
    ctx.check(len(calls) == 1 and calls[0][:2] == ['git', 'clone'], 'one copy')
    c = calls[0]
    ctx.check(c[-1] == dest, 'templates go to the directory asked for, else to the code', f'{c} {dest}')
    u = url or 'https://github.com/desihub/redrock-templates'
    ctx.check(c[-2] in (u, u.removesuffix('.git') + '.git'), 'from the repository asked for')
    br = [c[i + 1] for i, x in enumerate(c) if x in ('--branch', '-b')]
    ctx.check(br == [ver] or (ver in (None, 'main') and br in ([], ['main'])), 'the version asked for')
    ctx.check((status in (0, None)) == works, 'exit status tells whether it worked')
    ctx.check(not works or read == [dest + '/rrtemplate-new.fits'], 'the new templates are read', f'{read}')
    ctx.cover('done')


def h_reduced(ctx, n):
    """reduced wavelength: linear, -1 to 1"""
    w = ctx.reals('w', n, 3000, 10000)
    ctx.require(w[0] != w[1])
    r = ctx.rr.utils.reduced_wavelength(w)
    lo, hi = ctx.min(*w), ctx.max(*w)
    for i in range(n):
        ctx.check(ctx.And(r[i] >= -1 - 1e-12, r[i] <= 1 + 1e-12), 'within -1 to 1')
        ctx.eq(r[i] * (hi - lo), 2 * w[i] - lo - hi, 'linear', tol=1e-6 if not ctx.symbolic else None)
    ctx.cover('done')


def configs(tier):
    th = tier == 'thorough'
    out = []

    def add(name, fn, cover=('done',), bounds='', **kw):
        out.append(dict(name=name, fn=fn, params=kw, bounds=bounds or ', '.join(f'{k}={v}' for k, v in kw.items()), cover=list(cover), validate=3, weight=1))
    LR = ('loaded', 'refused')
    add('load/igm', h_load, LR, types_=('GALAXY', 'STAR', 'QSO'), versions=(None, '0.1', '1.0', '1.1', '2.6', '2.5'), igms=(None, 'Inoue14'), zfile=(True,))
    add('load/type', h_load, LR, types_=(' galaxy', 'Star ', 'QSO', 'WD'), subs=(None, ' f ', 'HIZ'), igms=('None',), zfile=(True, False))
    add('load/method', h_load, LR, methods=(None, 'nmf', 'PCA', 'SVD'), igms=('None',), loglam=(None, 0, 1), zfile=(True,))
    add('load/where', h_load, LR, igms=('None',), where=('path', 'dir', 'missing'), zfile=(True,))
    z = ({}, dict(zscan_galaxy='0.1,1.2,1e-3'), dict(zscan_star='-0.001,0.001,1e-4'), dict(zscan_qso='1.0,4.0,2e-3'),
         dict(zscan_galaxy='0,0.5,2e-4', zscan_star='-0.0004,0.0005,2e-5', zscan_qso='0.2,2,1e-3'))
    add('load/zscan', h_load, ('loaded',), types_=('GALAXY', 'STAR', 'QSO'), igms=('None',), opts=z)
    add('load/zscanfile', h_load, ('loaded',), types_=('GALAXY', 'STAR', 'QSO'), igms=('None',), opts=z, zfile=(True,))
    add('oii/galaxy', h_oii, ('some', 'none'), rrtype='GALAXY', method='PCA')
    add('oii/nmf', h_oii, ('no',), rrtype='GALAXY', method='NMF')
    add('oii/qso', h_oii, ('no',), rrtype='QSO', method='PCA')
    for how, default, cov in [('dir', True, 'fr'), ('dir', False, 'fr'), ('env', True, 'fr'), ('env', False, 'fr'), ('both', True, 'fr'), ('txt', True, 'fr'),
                              ('txt', False, 'fr'), ('single', True, 'f'), ('list', True, 'f'), ('nowhere', True, 'r'), ('junk', True, 'r'),
                              ('path', True, 'fr'), ('pathtxt', True, 'fr'), ('pathsingle', True, 'f'),
                              ('herelist', False, 'fr'), ('heredir', True, 'fr'), ('heredir', False, 'fr'), ('here', True, 'fr')]:
        add(f'find/{how}/{"default" if default else "glob"}', h_find, [dict(f='found', r='refused')[c] for c in cov], how=how, default=default)
    for how in ('env', 'both', 'file', 'expand', 'none'):
        add('archetypes/' + how, h_arch, how=how)
    for n, form, old, env in [(2, 'list', False, True), (3, 'dict', False, True), (3, 'list', True, True), (12, 'dict', False, False)]:
        add(f'header/{n}/{form}/{"old" if old else "new"}', h_header, n=n, form=form, old=old, env=env)
    add('header/keys', h_header_keys, slots=[0, 1, 2, 7], forms=5)
    add('header/keys_high', h_header_keys, slots=[3, 10, 99], forms=3)
    K = [('GALAXY', '', True), ('QSO', 'LOZ', True), ('STAR', 'F', True), ('QSO', '', True)]
    add('list/4', h_list, kinds=K, opts={})
    add('list/zscan', h_list, kinds=[('STAR', 'A', False), ('GALAXY', '', False), ('QSO', '', True)], opts=dict(zscan_galaxy='0.1,0.2,5e-3', zscan_star='-0.001,0.001,5e-4', zscan_qso='1.0,4.0,2e-2'))
    add('list/mpi2', h_list, kinds=K, opts={}, size=2)
    add('list/mpi3', h_list, kinds=[('STAR', 'A', False), ('QSO', '', True)], opts=dict(zscan_star='-0.001,0.001,5e-4'), size=3)
    add('reduced', h_reduced, n=3)
    add('from_header', h_from_header, kinds=[('GALAXY', '', '2.6'), ('QSO', 'LOZ', '1.1'), ('STAR', 'F', '0.1')])
    add('install', h_install, ('done', 'there'))
    if th:
        add('load/all', h_load, LR, types_=('GALAXY', 'STAR', 'QSO', 'WD'), versions=(None, '1.0', '1.1', '2.6'), igms=(None, 'Inoue14'), subs=(None, 'x'),
            methods=(None, 'nmf', 'SVD'), loglam=(None, 1), zfile=(True, False))
        add('list/mpi4', h_list, kinds=K, opts={}, size=4)
        add('oii/9', h_oii, ('some', 'none'), rrtype='GALAXY', method='PCA', nw=9, nb=3)
    return out
