"""A file system, h5py and FITS writer that can stop at any operation; contents may be symbolic."""
import os as _os
import posixpath
import types

import numpy as np

from . import snp


class Crash(BaseException):
    """power loss: nothing runs after it"""


class FS:
    """files: path -> content; a content has .complete (written to the end and closed)"""

    def __init__(self, hook=None, dirs=('/', '/out')):
        self.files = {}
        self.dirs = set(dirs)
        self.hook = hook
        self.nops = 0
        self.log = []
        self.dead = False

    def op(self, kind, path):
        if self.dead:
            raise Crash()
        k = self.nops
        self.nops += 1
        self.log.append((kind, path))
        if self.hook is not None:
            self.hook(k, kind, path)

    def norm(self, p):
        return posixpath.normpath(posixpath.join('/out', str(p)))

    def exists(self, p):
        p = self.norm(p)
        return p in self.files or p in self.dirs

    def need_parent(self, p):
        if posixpath.dirname(p) not in self.dirs:
            raise FileNotFoundError(2, 'No such file or directory', p)

    def create(self, p, content, excl=False):
        p = self.norm(p)
        self.need_parent(p)
        if excl and p in self.files:
            raise FileExistsError(17, 'File exists', p)
        self.op('create', p)
        self.files[p] = content
        return p

    def remove(self, p):
        p = self.norm(p)
        if p not in self.files:
            raise FileNotFoundError(2, 'No such file or directory', p)
        self.op('remove', p)
        del self.files[p]

    def rename(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a not in self.files:
            raise FileNotFoundError(2, 'No such file or directory', a)
        self.need_parent(b)
        self.op('rename', b)
        self.files[b] = self.files.pop(a)

    def makedirs(self, p, mode=511, exist_ok=False):
        p = self.norm(p)
        if p in self.dirs:
            if exist_ok:
                return
            raise FileExistsError(17, 'File exists', p)
        self.op('mkdir', p)
        while p not in self.dirs:
            self.dirs.add(p)
            p = posixpath.dirname(p)

    def listdir(self, p='.'):
        p = self.norm(p)
        return sorted({f[len(p):].strip('/').split('/')[0] for f in list(self.files) + list(self.dirs)
                       if f.startswith(p.rstrip('/') + '/')})

    # -- modules
    def os_module(self):
        from .loader import NS
        path = NS('os.path', posixpath, exists=self.exists, lexists=self.exists, isfile=lambda p: self.norm(p) in self.files,
                  isdir=lambda p: self.norm(p) in self.dirs, abspath=self.norm, realpath=self.norm,
                  getsize=lambda p: 1)
        m = NS('os', _os, path=path, remove=self.remove, unlink=self.remove, rename=self.rename, replace=self.rename,
               makedirs=self.makedirs, mkdir=self.makedirs, listdir=self.listdir, getcwd=lambda: '/out',
               environ=dict(_os.environ), fsync=lambda fd: None)
        for n in ('open', 'link', 'symlink', 'truncate', 'system', 'rmdir', 'removedirs', 'renames', 'chmod'):
            setattr(m, n, _refuse('os.' + n))
        return m

    def shutil_module(self):
        m = types.ModuleType('shutil')
        m.move = self.rename
        return m

    def h5py_module(self):
        m = types.ModuleType('h5py')
        fs = self

        class File(H5):
            def __init__(self, name, mode='r', **kw):
                H5.__init__(self, fs, name, mode)
        m.File = File
        m.Group = m.Dataset = ()
        m.string_dtype = lambda *a, **k: np.dtype('S64')
        return m


def _refuse(name):
    def f(*a, **k):
        raise snp.Unsupported(name + ' on the modelled file system')
    return f


class Tree:
    def __init__(self):
        self.data = {}
        self.complete = False


def _store(v):
    if isinstance(v, Rec):
        for k, c in v.cols.items():
            if snp.vdtype(c).kind == 'U':
                raise TypeError('No conversion path for dtype')
        return Rec({k: c.copy() for k, c in v.cols.items()})
    a = v if isinstance(v, np.ndarray) else snp.to_sarr(v)
    if snp.vdtype(a).kind == 'U':
        raise TypeError('No conversion path for dtype: ' + repr(snp.vdtype(a)))
    return a.copy()


class Dataset:
    def __init__(self, v):
        self._v = v

    def __getitem__(self, k):
        v = self._v
        if k == () and isinstance(k, tuple):
            return v.copy()
        if isinstance(k, slice) and k == slice(None) or k is Ellipsis:
            return v.copy()
        return v[k]

    def __len__(self):
        return len(self._v)

    def __array__(self, *a, **k):
        raise snp.Unsupported('implicit read of a dataset')

    @property
    def shape(self):
        return self._v.shape

    @property
    def dtype(self):
        return self._v.dtype

    value = property(lambda s: s._v.copy())


class H5:
    def __init__(self, fs, name, mode, tree=None, prefix=''):
        self._fs, self._mode, self._prefix = fs, mode, prefix
        if tree is not None:
            self._tree = tree
            return
        p = fs.norm(name)
        self._tree = None
        if mode in ('w', 'w-', 'x'):
            self._tree = Tree()
            fs.create(p, self._tree, excl=mode != 'w')
        elif mode in ('r', 'r+', 'a'):
            if p not in fs.files:
                if mode == 'a':
                    self._tree = Tree()
                    fs.create(p, self._tree)
                    return
                raise FileNotFoundError(2, 'Unable to synchronously open file', p)
            if not getattr(fs.files[p], 'complete', False):
                raise OSError('truncated file ' + p)
            self._tree = fs.files[p]
            if mode != 'r':
                self._tree.complete = False
        else:
            raise ValueError('Invalid mode')

    def _key(self, k):
        return '/'.join(x for x in ('' if k.startswith('/') else self._prefix, k) if x).strip('/')

    def __setitem__(self, k, v):
        if self._tree is None or self._mode == 'r':
            raise OSError('no write intent on file')
        k = self._key(k)
        self._fs.op('write', k)
        if k in self._tree.data or any(x.startswith(k + '/') for x in self._tree.data):
            raise OSError('Unable to create link (name already exists)')
        self._tree.data[k] = _store(v)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **kw):
        if data is None:
            raise snp.Unsupported('create_dataset without data')
        self[name] = data if dtype is None else data.astype(dtype)

    def create_group(self, name):
        return H5(self._fs, None, self._mode, self._tree, self._key(name))

    require_group = create_group

    def __getitem__(self, k):
        if self._tree is None:
            raise ValueError('file is closed')
        k = self._key(k)
        if k in self._tree.data:
            return Dataset(self._tree.data[k])
        if any(x.startswith(k + '/') for x in self._tree.data):
            return H5(self._fs, None, self._mode, self._tree, k)
        raise KeyError(f"Unable to open object (object '{k}' doesn't exist)")

    def __contains__(self, k):
        try:
            self[k]
        except KeyError:
            return False
        return True

    def keys(self):
        n = len(self._prefix) + 1 if self._prefix else 0
        return sorted({x[n:].split('/')[0] for x in self._tree.data if not self._prefix or x.startswith(self._prefix + '/')})

    def __iter__(self):
        return iter(self.keys())

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def __len__(self):
        return len(self.keys())

    def flush(self):
        pass

    def close(self):
        if self._tree is not None and not self._prefix:
            if self._mode != 'r':
                self._fs.op('close', '')
                self._tree.complete = True
            self._tree = None

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


class Rec:
    """structured array"""

    def __init__(self, cols):
        self.cols = dict(cols)

    @property
    def dtype(self):
        return np.dtype([(k, snp.vdtype(c), c.shape[1:]) for k, c in self.cols.items()])

    @property
    def shape(self):
        return (len(self),)

    ndim = 1

    def __len__(self):
        for c in self.cols.values():
            return len(c)
        return 0

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.cols[k]
        if isinstance(k, (int, np.integer)):
            return {n: c[k] for n, c in self.cols.items()}
        return Rec({n: c[k] for n, c in self.cols.items()})

    def copy(self):
        return Rec({k: c.copy() for k, c in self.cols.items()})

    def rec_concat(self, recs):
        if len({tuple(r.cols) for r in recs}) > 1:
            raise TypeError('invalid type promotion with structured datatypes')
        if any(len({r.cols[k].shape[1:] for r in recs}) > 1 for k in self.cols):
            raise TypeError('invalid type promotion with structured datatypes')
        return Rec({k: snp.FUNCS['concatenate']([r.cols[k] for r in recs]) for k in self.cols})


# ------------------------------------------------------------------ FITS

class FHDU:
    def __init__(self, data=None, header=None, name=None):
        from astropy.io.fits import Header
        self.header = Header() if header is None else (header.copy() if hasattr(header, 'copy') else Header(header))
        self._data = data
        if name is not None:
            self.name = name

    @property
    def data(self):
        return self._data

    @data.setter
    def data(self, v):
        self._data = v

    @property
    def name(self):
        return self.header.get('EXTNAME', '')

    @name.setter
    def name(self, v):
        self.header['EXTNAME'] = str(v).upper()

    @property
    def columns(self):
        import types as t
        return t.SimpleNamespace(names=list(self._data.cols))

    def frozen(self):
        h = FHDU(self._data.copy() if hasattr(self._data, 'copy') else self._data, self.header)
        return h


class PHDU(FHDU):
    def __init__(self, data=None, header=None, **kw):
        super().__init__(data, header)
        self.header.setdefault('EXTNAME', 'PRIMARY') if False else None


class HDUL(list):
    def __init__(self, hdus=(), fs=None, mode='r'):
        super().__init__(hdus)
        self.complete = True
        self._fs = fs

    def _find(self, k):
        if isinstance(k, str):
            for i, h in enumerate(self):
                if h.name == k.upper() or (k.upper() == 'PRIMARY' and i == 0):
                    return i
            raise KeyError(f"Extension '{k}' not found.")
        return k

    def __getitem__(self, k):
        return list.__getitem__(self, self._find(k))

    def __contains__(self, k):
        if isinstance(k, str):
            try:
                self._find(k)
                return True
            except KeyError:
                return False
        return list.__contains__(self, k)

    def index_of(self, k):
        return self._find(k)

    def close(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def writeto(self, name, overwrite=False, **kw):
        fs = self._fs or FITS_FS[-1]
        p = fs.norm(name)
        if p in fs.files and not overwrite:
            raise OSError(f'File {p!r} already exists.')
        c = HDUL()
        c.complete = False
        fs.create(p, c)
        for h in self:
            fs.op('write', h.name)
            c.append(h.frozen())
        fs.op('close', p)
        c.complete = True


FITS_FS = []


def fits_module(fs):
    import astropy.io.fits as real
    from .loader import NS
    FITS_FS[:] = [fs]

    def open_(p, *a, **k):
        p = fs.norm(p)
        if p not in fs.files:
            raise FileNotFoundError(2, 'No such file or directory', p)
        if not fs.files[p].complete:
            raise OSError('truncated file')
        return HDUL([h.frozen() for h in fs.files[p]], fs)

    def table_to_hdu(t, **kw):
        h = FHDU(Rec({c: t[c].copy() for c in t.colnames}))
        for k, v in t.meta.items():
            if isinstance(v, tuple):
                v = v[0]
            h.header[k] = v
        return h

    def bintable(data=None, header=None, name=None, **kw):
        return table_to_hdu(data) if hasattr(data, 'colnames') else FHDU(data, header, name)
    conv = NS('astropy.io.fits.convenience', None, table_to_hdu=table_to_hdu)
    m = NS('astropy.io.fits', real, open=open_, HDUList=lambda hdus=(), **k: HDUL(hdus, fs), PrimaryHDU=PHDU,
           ImageHDU=lambda data=None, header=None, name=None, **k: FHDU(data, header, name), BinTableHDU=bintable,
           convenience=conv, table_to_hdu=table_to_hdu, HDUL=HDUL)
    m.BinTableHDU.__dict__.setdefault('from_columns', None)
    for n in ('writeto', 'append', 'update', 'getdata', 'getheader'):
        setattr(m, n, _refuse('fits.' + n))
    return m
