"""Inputs shared by the harnesses, built from the real classes."""
import types

import numpy as np

HUGE = 9999999.0


def dia(ctx, data, offsets, n):
    """banded matrix: data is a list of rows in DIA layout"""
    if ctx.symbolic:
        from .fakes import Dia
        return Dia((data if isinstance(data, np.ndarray) else ctx.arr(data), np.array(offsets)), (n, n))
    import scipy.sparse
    return scipy.sparse.dia_matrix((np.asarray(data, dtype=float), np.array(offsets)), shape=(n, n))


def rdata(n, k, mode):
    """concrete DIA data with rows summing to 1 inside: identity or a 3-band kernel"""
    if mode == 'id':
        return [[1.0] * n], [0]
    # column-stored diagonals: data[d, j] = R[j - off, j]
    offs = [1, 0, -1]
    d = []
    for off in offs:
        row = []
        for j in range(n):
            i = j - off
            if not 0 <= i < n:
                row.append(0.0)
            elif off == 0:
                row.append(0.5 if 0 < i < n - 1 else 0.75)
            else:
                row.append(0.25)
        d.append(row)
    return d, offs


def dense(R, n):
    """rows of a banded matrix given as (data, offsets)"""
    data, offs = R
    m = [[0] * n for _ in range(n)]
    for k, off in enumerate(offs):
        for j in range(n):
            if 0 <= j - off < n:
                m[j - off][j] = data[k][j]
    return m


def spectrum(ctx, name, wave, rmode='id', band=None, ivar=None, flux=None, lo=0):
    n = len(wave)
    d, o = rdata(n, 0, rmode)
    f = ctx.reals(name + 'f', n) if flux is None else flux
    if ivar is None:
        ivar = ctx.reals(name + 'w', n, lo)
    return ctx.rr.targets.Spectrum(ctx.arr(wave), f, ivar, dia(ctx, d, o, n), None, band=band)


class Template(types.SimpleNamespace):
    """the attributes of a Template that the scan and the fit use"""


def template(ctx, redshifts, nbasis=1, template_type='GALAXY', sub_type='', method='PCA', **kw):
    full = template_type + (':::' + sub_type if sub_type else '')
    d = dict(template_type=template_type, sub_type=sub_type, full_type=full, _rrtype=template_type,
             _subtype=sub_type, redshifts=redshifts, nbasis=nbasis, solve_matrices_algorithm=method, method=method,
             igm_model=None, gpuwave=None, gpuflux=None)
    d.update(kw)
    return Template(**d)


class LocalSlice:
    def __init__(self, index, redshifts, data):
        self.index, self.redshifts, self.data = index, redshifts, data

    def cycle(self):
        return True


class DTemplate:
    """a DistTemplate whose rebinned data are given"""

    def __init__(self, template, data, comm=None):
        self._t = template
        self.local = LocalSlice(0, template.redshifts, data)
        self.comm = comm

    @property
    def template(self):
        return self._t

    def cycle(self):
        return True


class Targets:
    """minimal DistTargets"""

    def __init__(self, ctx, targets):
        pass


def dot(a, b):
    r = 0
    for x, y in zip(a, b):
        r = r + x * y
    return r


def matvec(m, v):
    return [dot(r, v) for r in m]
