"""DESI input files and the parts of desispec the reader uses: modelled, or real files in replays."""
import os
import shutil
import tempfile

import numpy as np

from . import fakefs, snp
from .loader import NS


def ordered_unique(x):
    out = []
    for v in x:
        if int(v) not in out:
            out.append(int(v))
    return out


class Env:
    def __init__(self, ctx, const_patch=None):
        self.ctx = ctx
        if ctx.symbolic:
            import astropy.io
            self.fs = fakefs.FS(dirs=('/', '/out', '/in'))
            o = self.fs.os_module()
            # templates, archetypes and source files are read from the real disk
            real_exists = o.path.exists
            o.path.exists = lambda p: real_exists(p) or os.path.exists(p)
            ctx.shim('os', o)
            ctx.shim('os.path', o.path)
            ctx.shim('h5py', self.fs.h5py_module())
            ctx.shim('astropy.io', NS('astropy.io', astropy.io, fits=fakefs.fits_module(self.fs)))
            from .fakes import Dia, Table

            def Resolution(data):
                n = data.shape[0]
                assert data.shape[1] > n and n % 2
                return Dia((data, np.arange(n // 2, -(n // 2) - 1, -1)), (data.shape[1], data.shape[1]))
            ctx.shim('desispec.resolution', NS('desispec.resolution', None, Resolution=Resolution))
            ctx.shim('desispec.coaddition', NS('desispec.coaddition', None, coadd_fibermap=lambda f, onetile=False: coadd_fibermap(f, Table)))
            ctx.shim('desispec.specscore', NS('desispec.specscore', None, compute_coadd_tsnr_scores=tsnr))
            ctx.shim('desispec.io.util', NS('desispec.io.util', None, get_tempfilename=lambda n: n + '.tmpx'))
            ctx.shim('desispec.io.fibermap', NS('desispec.io.fibermap', None, annotate_fibermap=lambda h: h))
            ctx.shim('desiutil.io', NS('desiutil.io', None, encode_table=lambda t, **k: Table(t)))
            ctx.shim('desiutil.depend', NS('desiutil.depend', None, add_dependencies=lambda h: None, setdep=lambda *a: None))
            self.dir = '/in/'
        else:
            self.dir = tempfile.mkdtemp(prefix='symrr_') + '/'
            ctx.onclose(lambda: shutil.rmtree(self.dir, ignore_errors=True))
            from astropy.table import Table
            ctx.rr.load('redrock.external.desi')
            ctx.rr.patch('external.desi', 'coadd_fibermap', lambda f, onetile=False: coadd_fibermap(f, Table))
        self.desi = ctx.rr.load('redrock.external.desi')
        if const_patch:
            # the same code with a smaller batch size
            f = self.desi.DistTargetsDESI.__init__
            old = f.__code__
            f.__code__ = old.replace(co_consts=tuple(const_patch.get(c, c) if type(c) is int else c for c in old.co_consts))
            ctx.onclose(lambda: setattr(f, '__code__', old))

    def write(self, name, f):
        """f: coadded, fmap {col: list}, exp {col: list} or None, scores {col: list}, bands, wave {b: list},
        flux/ivar {b: rows}, mask {b: rows or None}, res {b: (row, diag, pix)}, header {}"""
        ctx = self.ctx
        path = self.dir + name
        prim = dict(f.get('header', {}))
        hd = [('FIBERMAP', f['fmap'])]
        if f['coadded']:
            hd.append(('EXP_FIBERMAP', f['exp']))
        hd.append(('SCORES', f['scores']))
        if f.get('tables_last'):
            tabs, hd = hd, []
        im = []
        for b in f['bands']:
            B = b.upper()
            im.append((f'{B}_WAVELENGTH', f['wave'][b]))
            im.append((f'{B}_FLUX', f['flux'][b]))
            im.append((f'{B}_IVAR', f['ivar'][b]))
            if f['mask'][b] is not None:
                im.append((f'{B}_MASK', f['mask'][b]))
            im.append((f'{B}_RESOLUTION', f['res'][b]))
        if f.get('tables_last'):
            hd = tabs
            order = [('i', x) for x in im] + [('t', x) for x in hd]
        else:
            order = [('t', x) for x in hd] + [('i', x) for x in im]
        if ctx.symbolic:
            h = fakefs.HDUL([fakefs.PHDU()], self.fs)
            for k, v in prim.items():
                h[0].header[k] = v
            for kind, (n, v) in order:
                if kind == 't':
                    h.append(fakefs.FHDU(fakefs.Rec({c: _arr(x) for c, x in v.items()}), None, n))
                else:
                    h.append(fakefs.FHDU(_arr(v), None, n))
            self.fs.files[path] = h
        else:
            from astropy.io import fits
            from astropy.table import Table
            h = fits.HDUList([fits.PrimaryHDU()])
            for k, v in prim.items():
                h[0].header[k] = v
            for kind, (n, v) in order:
                if kind == 't':
                    hdu = fits.convenience.table_to_hdu(Table({c: np.array(x) for c, x in v.items()}))
                else:
                    a = np.array(v)
                    hdu = fits.ImageHDU(data=a.astype('>f8' if a.dtype.kind == 'f' else '>i4'))
                hdu.header['EXTNAME'] = n
                h.append(hdu)
            h.writeto(path)
        return path

    def read(self, path):
        """HDUs of a file: name -> {column: list} or nested list, and headers"""
        if self.ctx.symbolic:
            h = self.fs.files[self.fs.norm(path)]
            assert h.complete
        else:
            from astropy.io import fits
            with fits.open(path, memmap=False) as hx:
                out, hdr = {}, {}
                for i, x in enumerate(hx):
                    n = x.name if i else 'PRIMARY'
                    hdr[n] = dict(x.header)
                    out[n] = ({c: np.array(x.data[c]) for c in x.data.names} if getattr(x.data, 'names', None)
                              else (None if x.data is None else np.array(x.data)))
                return out, hdr
        out, hdr = {}, {}
        for i, x in enumerate(h):
            n = x.name if i else 'PRIMARY'
            hdr[n] = dict(x.header)
            out[n] = dict(x.data.cols) if isinstance(x.data, fakefs.Rec) else x.data
        return out, hdr


def _arr(v):
    return v if isinstance(v, np.ndarray) else snp.to_sarr(v)


def coadd_fibermap(f, Table):
    """one row per target in order of appearance, and the exposures"""
    ids = [int(x) for x in f['TARGETID']]
    first = [ids.index(i) for i in ordered_unique(ids)]
    co = Table({c: f[c] for c in f.colnames})[np.array(first)]
    if 'FIBERSTATUS' in co.colnames:
        co.rename_column('FIBERSTATUS', 'COADD_FIBERSTATUS')
    return co, Table({c: f[c] for c in f.colnames})


def tsnr(scores):
    ids = [int(x) for x in scores['TARGETID']]
    u = ordered_unique(ids)
    out = dict(TARGETID=np.array(u))
    per = [c for c in scores.colnames if c.startswith('TSNR2_') and c.split('_')[-1] in 'BRZ']
    for c in per:
        out[c] = snp.to_sarr([sum(scores[c][i] for i in range(len(ids)) if ids[i] == t) for t in u]).astype(np.float32)
    for typ in dict.fromkeys(c.split('_')[1] for c in per):
        out[f'TSNR2_{typ}'] = sum(out[c] for c in per if c.split('_')[1] == typ)
    return out, {}
