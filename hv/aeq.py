"""Equality of sparse matrices and astropy objects; importing this module teaches hv.eq.same about them."""
import numpy as np
import scipy.sparse as sp
import astropy.units as u
from astropy.constants import Constant
from astropy.coordinates import Longitude, SkyCoord, BaseCoordinateFrame
from astropy.table import Table
from astropy.time import Time, TimeDelta

from . import eq
from .eq import fail


def same_sparse(a, b, where=''):
    if a.shape != b.shape:
        fail(where, a.shape, b.shape, 'shape of sparse matrix differs')
    if a.dtype != b.dtype:
        fail(where, a.dtype, b.dtype, 'dtype of sparse matrix differs')
    if a.format in ('csr', 'csc', 'bsr'):
        names = ('data', 'indices', 'indptr')
    elif a.format == 'coo':
        names = ('data',)
        if len(a.coords) != len(b.coords) or any(not np.array_equal(p, q) for p, q in zip(a.coords, b.coords)):
            fail(where, a, b, 'coordinates of sparse matrix differ')
    elif a.format == 'dia':
        names = ('data', 'offsets')
    elif a.format == 'dok':
        da, db = dict(a.items()), dict(b.items())
        if da.keys() != db.keys() or any(not eq.same_number(da[k], db[k]) for k in da):
            fail(where, a, b, 'items differ')
        return
    else:
        names = ('rows', 'data')
        for n in names:
            x, y = getattr(a, n), getattr(b, n)
            if x.shape != y.shape or any(len(p) != len(q) or any(not eq.same_number(i, j) for i, j in zip(p, q)) for p, q in zip(x, y)):
                fail(where, x, y, n + ' of sparse matrix differs')
        return
    for n in names:
        x, y = getattr(a, n), getattr(b, n)
        if x.shape != y.shape:
            fail(where, x, y, n + ' of sparse matrix differs')
        if n == 'data':
            eq.same_array(x, y, where + '.data')
        elif not np.array_equal(x, y):
            fail(where, x, y, n + ' of sparse matrix differs')


def same_quantity(a, b, where=''):
    if a.unit != b.unit:
        fail(where, a, b, 'unit differs')
    if isinstance(a, Longitude) and a.wrap_angle != b.wrap_angle:
        fail(where, a.wrap_angle, b.wrap_angle, 'wrap_angle differs')
    x, y = np.asarray(a.value), np.asarray(b.value)
    if x.dtype.newbyteorder('=') == y.dtype.newbyteorder('='):     # byte order of pickled values is not kept by pickle
        x, y = x.astype(x.dtype.newbyteorder('=')), y.astype(y.dtype.newbyteorder('='))
    eq.same_array(x, y, where + '.value')


def same_constant(a, b, where=''):
    for n in ('abbrev', 'name', 'value', 'unit', 'uncertainty', 'reference', 'system'):
        x, y = getattr(a, n), getattr(b, n)
        if type(y) is bytes and type(x) is str:
            y = y.decode('ascii')
        if x != y:
            fail(where, x, y, n + ' of constant differs')
    if a.dtype != b.dtype:
        fail(where, a.dtype, b.dtype, 'dtype of constant differs')


def same_time(a, b, where=''):
    for n in ('format', 'scale', 'shape', 'precision', 'in_subfmt', 'out_subfmt'):
        if getattr(a, n) != getattr(b, n):
            fail(where, getattr(a, n), getattr(b, n), n + ' of time differs')
    x, y = np.asarray(a.value), np.asarray(b.value)
    # astropy itself does not reproduce the last bit: Time(t.value, format=t.format).value != t.value
    if x.dtype.kind == 'f' and type(a) is Time and not np.array_equal(x, y):
        x = np.asarray(Time(a.value, format=a.format, scale=a.scale).value)
    close = x.dtype.kind == 'f' and x.dtype == y.dtype and x.shape == y.shape and np.all(np.abs(x - y) <= 4 * np.spacing(np.abs(x)))
    if x.dtype.kind != y.dtype.kind or not (close or np.array_equal(x, y)):
        fail(where, x, y, 'value of time differs')
    if (getattr(a, 'location', None) is None) != (getattr(b, 'location', None) is None):
        fail(where, a.location, b.location, 'location of time differs')
    if getattr(a, 'location', None) is not None and not np.all(a.location == b.location):
        fail(where, a.location, b.location, 'location of time differs')


def same_skycoord(a, b, where=''):
    if not a.is_equivalent_frame(b):
        fail(where, a, b, 'frame differs')
    if a.shape != b.shape:
        fail(where, a.shape, b.shape, 'shape differs')
    if type(a.data) is not type(b.data):
        fail(where, a.data, b.data, 'representation differs')
    for c in a.data.components:
        x, y = getattr(a.data, c), getattr(b.data, c)
        if x.dtype.newbyteorder('=') != y.dtype.newbyteorder('='):
            fail(where, x.dtype, y.dtype, 'dtype of %s differs' % c)
        if isinstance(x, Longitude) and x.wrap_angle != y.wrap_angle:
            fail(where, x.wrap_angle, y.wrap_angle, 'wrap_angle of %s differs' % c)
        if x.unit != y.unit or not np.array_equal(x.value, y.value, equal_nan=True):
            fail(where, x, y, c + ' differs')
    if set(a.data.differentials) != set(b.data.differentials):
        fail(where, a, b, 'differentials differ')
    for k, d in a.data.differentials.items():
        e = b.data.differentials[k]
        for c in d.components:
            if not np.array_equal(getattr(d, c), getattr(e, c), equal_nan=True):
                fail(where, a, b, 'differentials differ')


def same_table(a, b, where=''):
    if a.colnames != b.colnames:
        fail(where, a.colnames, b.colnames, 'column names differ')
    if len(a) != len(b):
        fail(where, a, b, 'number of rows differs')
    if list(a.meta) != list(b.meta) and set(a.meta) != set(b.meta):
        fail(where, a.meta, b.meta, 'meta data differs')
    for k in a.meta:
        x, y = a.meta[k], b.meta[k]
        if eq.is_num(x) and eq.is_num(y):
            if not eq.same_number(x, y) or eq.kind(x) != eq.kind(y):
                fail(where, x, y, 'meta data differs')
        elif not (type(x) is type(y) or isinstance(x, str) and isinstance(y, str)) or x != y:
            fail(where, x, y, 'meta data differs')
    for n in a.colnames:
        x, y = a[n], b[n]
        w = '%s.%s' % (where, n)
        if type(x) is not type(y):
            fail(w, x, y, 'column type differs')
        for at in ('unit', 'format', 'description'):
            if getattr(x.info, at, None) != getattr(y.info, at, None):
                fail(w, x, y, at + ' of column differs')
        if isinstance(x, Time):
            same_time(x, y, w)
            continue
        if isinstance(x, SkyCoord):
            same_skycoord(x, y, w)
            continue
        if isinstance(x, np.ma.MaskedArray):
            if not np.array_equal(np.ma.getmaskarray(x), np.ma.getmaskarray(y)):
                fail(w, x, y, 'mask differs')
        px, py = np.asarray(getattr(x, 'value', x)), np.asarray(getattr(y, 'value', y))
        if px.dtype.newbyteorder('=') == py.dtype.newbyteorder('='):    # as_array() of astropy converts to native byte order
            px, py = px.astype(px.dtype.newbyteorder('=')), py.astype(py.dtype.newbyteorder('='))
        if px.dtype != py.dtype or px.shape != py.shape:
            fail(w, px, py, 'dtype or shape of column differs')
        eq.plain_array(px, py, w)


eq.EXTRA[:] = [
    ((sp.sparray, sp.spmatrix), same_sparse),
    (Constant, same_constant),
    (u.Quantity, same_quantity),
    ((Time, TimeDelta), same_time),
    (SkyCoord, same_skycoord),
    (Table, same_table),
]
same = eq.same
