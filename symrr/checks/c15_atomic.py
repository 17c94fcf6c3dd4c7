"""C15: output files are replaced in one step: an interrupted or failing run leaves no partial file."""
import importlib.machinery

from .. import fakefs
from ..loader import NS
from . import c14_files as F14

PROPERTY = 'C15'
ASSUMPTIONS = ['rename within a directory is atomic; a file is complete only after it was closed',
               'interruption: no further file operation happens; failure: one operation raises OSError']
NAME, SUB = '/out/res.out', '/out/sub/res.out'


class Env:
    """modelled file system seen by the writer, also in replays"""

    def __init__(self, ctx, which):
        self.ctx, self.which = ctx, which
        self.fs = None
        self.os = NS('os', None)
        import os as _os
        self.os.__dict__['_base'] = _os
        self.osp = NS('os.path', None)
        self.h5 = NS('h5py', None, __spec__=importlib.machinery.ModuleSpec('h5py', None))
        self.fits = NS('astropy.io.fits', None)
        self.os.path = self.osp
        self.use(fakefs.FS())
        if ctx.symbolic:
            import astropy.io
            import scipy
            ctx.shim('os', self.os)
            ctx.shim('os.path', self.osp)
            ctx.shim('h5py', self.h5)
            ctx.shim('astropy.io', NS('astropy.io', astropy.io, fits=self.fits))
            ctx.shim('desispec.io.fibermap', NS('desispec.io.fibermap', None, annotate_fibermap=lambda h: h))
            ctx.shim('desispec.io.util', NS('desispec.io.util', None, get_tempfilename=lambda n: n + '.tmpx'))
            ctx.shim('desiutil.depend', NS('desiutil.depend', None, add_dependencies=lambda h: None, setdep=lambda *a: None))
        else:
            ctx.shim('h5py', self.h5)
        rr = ctx.rr
        if not ctx.symbolic:
            m = 'results' if which == 'zscan' else ('external.boss' if which == 'boss' else 'external.desi')
            rr.patch(m, 'os', self.os)
            if which != 'zscan':
                rr.load('redrock.' + m)
                for k, v in dict(fits=self.fits, annotate_fibermap=lambda h: h, get_tempfilename=lambda n: n + '.tmpx',
                                 add_dependencies=lambda h: None, setdep=lambda *a: None).items():
                    rr.patch(m, k, v)
            if which == 'zscan':
                pass

    def use(self, fs):
        self.fs = fs
        for tgt, src in ((self.os, fs.os_module()), (self.osp, fs.os_module().path), (self.h5, fs.h5py_module()),
                         (self.fits, fakefs.fits_module(fs))):
            b = tgt.__dict__.get('_base')
            tgt.__dict__.update({k: v for k, v in vars(src).items() if not k.startswith('__')})
            if tgt is self.os:
                tgt.path = self.osp
        return fs


class Tmpl:
    full_type, version, filename, template_type = 'GALAXY', '2.6', '/t/rrtemplate-galaxy.fits', 'GALAXY'


def writer(ctx, which, tag, NAME):
    """() -> None writing a file with the contents called tag"""
    rr = ctx.rr
    T = rr.results.Table
    if which == 'zscan':
        ids, ft = [7, 3], ['GALAXY', 'STAR']
        zs = F14.scan(_Pre(ctx, tag), ids, ft, 1, [1, 1])
        tab, _ = F14.zfit_table(_Pre(ctx, tag), ids, ft, [[0, 1], [1]], 2)

        def go(clobber):
            rr.results.write_zscan(NAME, zs, tab, clobber=clobber)
        return go

    def tab(n, name):
        return T(dict(TARGETID=ctx.intarr(range(n)), Z=_Pre(ctx, tag).reals('z' + name, n, 0, 5)))
    if which == 'zbest':
        t = [tab(2, 'a'), tab(2, 'b'), tab(3, 'c'), tab(2, 'd')]
        return lambda clobber: rr.load('redrock.external.desi').write_zbest(NAME, *t, templates=[Tmpl])
    if which == 'model':
        z = tab(2, 'a')
        md = {b: _Pre(ctx, tag).reals('m' + b, (2, 2), 0, 5) for b in 'br'}
        wd = {b: ctx.arr([3600.0, 3601.0]) for b in 'br'}
        return lambda clobber: rr.load('redrock.external.desi').write_bestmodel(NAME, z, md, wd, [Tmpl])
    z = tab(2, 'a')
    return lambda clobber: rr.load('redrock.external.boss').write_zbest(NAME, z, {'GALAXY': '2.6'}, None)


class _Pre:
    def __init__(self, ctx, tag):
        self._c, self._t = ctx, tag

    def reals(self, n, *a):
        return self._c.reals(self._t + n, *a)

    def ints(self, n, *a):
        return self._c.ints(self._t + n, *a)

    def __getattr__(self, n):
        return getattr(self._c, n)


def flat(c):
    """name -> values of a file"""
    out = {}
    items = c.data.items() if hasattr(c, 'data') else [(f'{i}:{h.name}', h.data) for i, h in enumerate(c)]
    for k, v in items:
        if isinstance(v, fakefs.Rec):
            for n, a in v.cols.items():
                out[k, n] = list(a.reshape(-1))
        elif getattr(getattr(v, 'dtype', None), 'names', None):
            for n in v.dtype.names:
                out[k, n] = list(v[n].reshape(-1))
        else:
            out[k] = [] if v is None else list(v.reshape(-1))
    return out


def same(ctx, a, b, label):
    a, b = flat(a), flat(b)
    ctx.check(set(a) == set(b), label + ': all parts of the file')
    if set(a) == set(b):
        ctx.eq([a[k] for k in sorted(a, key=str)], [b[k] for k in sorted(a, key=str)], label)


def h_crash(ctx, which, old, clobber, nmax, fail):
    NAME = globals()['NAME'] if which == 'boss' or old else SUB
    env = Env(ctx, which)
    new, prev = writer(ctx, which, 'n', NAME), writer(ctx, which, 'o', NAME)
    # what the files look like when nothing goes wrong
    new(False)
    ref = env.fs.files[NAME]
    nops = env.fs.nops
    ctx.check(ref.complete, 'complete file')
    fs = env.use(fakefs.FS())
    oldc = None
    if old:
        prev(False)
        oldc = fs.files[NAME]
    fs.nops = 0
    k = ctx.int('k', 0, nmax)
    state = dict(hit=False)

    def hook(n, kind, path):
        if not state['hit'] and ctx.truth(k == n):
            state['hit'] = True
            if fail:
                raise OSError(28, 'No space left on device', path)
            fs.dead = True
            raise fakefs.Crash()
    fs.hook = hook
    err = None
    try:
        new(clobber)
    except (fakefs.Crash, OSError) as e:
        err = e
    except Exception as e:
        if not state['hit']:
            raise
        err = e
    fs.hook, fs.dead = None, False
    now = fs.files.get(NAME)
    if state['hit']:
        ctx.check(err is not None, 'a failed write is reported')
        ctx.cover('stopped')
    else:
        ctx.check(err is None, 'no failure without cause')
        ctx.check(now is not None and [p for p in fs.files] == [NAME], 'only the result is left')
        ctx.cover('through')
    if now is None:
        ctx.check(state['hit'] and (not old or clobber), 'a result does not disappear')
    else:
        ctx.check(now.complete, 'never a partial file under the final name')
        if now is oldc:
            ctx.check(state['hit'], 'new results replace old ones')
        else:
            same(ctx, now, ref, 'new file complete')
    if oldc is not None and now is oldc:
        ctx.check(oldc.complete, 'old file intact')
    # the next run is not disturbed by what is left behind
    new(clobber)
    ctx.check(NAME in fs.files and fs.files[NAME].complete, 'the next run completes')
    same(ctx, fs.files[NAME], ref, 'the next run writes everything')
    ctx.check(list(fs.files) == [NAME], 'the next run cleans up')


def configs(tier):
    c = []
    for which in ('zscan', 'zbest', 'model', 'boss'):
        for old in (False, True):
            for cl in ((False, True) if which == 'zscan' else (False,)):
                for fail in (False, True):
                    c.append(dict(name=f'{which}_{"old" if old else "new"}{"_clobber" if cl else ""}_{"fail" if fail else "stop"}', fn=h_crash,
                                  params=dict(which=which, old=old, clobber=cl, nmax=30, fail=fail),
                                  bounds='interrupted at any of the first 31 file operations or not at all, then run again',
                                  cover=['stopped', 'through'], validate=3, weight=2))
    return c
