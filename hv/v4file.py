"""Independent writer for the hickle 4.0.x on-disk format: no type table, every
node carries 'base_type' and the pickled class in 'type'; dict entries are
groups named by the representation of their key.  Written from the layout of
the file shipped with the repository; never calls code under test."""
import base64
import pickle

import dill
import h5py
import numpy as np
import scipy.sparse as sp
import astropy.units as u
from astropy.constants import Constant
from astropy.coordinates import Angle, SkyCoord
from astropy.table import Table
from astropy.time import Time

_ASCII = h5py.string_dtype('ascii')
_RETURN_FIRST = b'\x80\x03chickle.loaders.load_scipy\nreturn_first\nq\x00.'
# a lambda function pickled by Python 3.6, as it stands in real files
_LAMBDA = base64.b64decode('gANjZGlsbC5fZGlsbApfY3JlYXRlX2Z1bmN0aW9uCnEAKGNkaWxsLl9kaWxsCl9sb2FkX3R5cGUKcQFYCAAAAENvZGVUeXBlcQKFcQNScQQoSwFLAEsBSwNLU0MOdABqAXwAZAEZAIMBUwBxBU5LAIZxBlgCAAAAbnBxB1gFAAAAYXJyYXlxCIZxCVgBAAAAeHEKhXELWFQAAAAvaG9tZS9ub3RoZXIvZGF0ZW4vcHJvamVrdGUvZ2l0aHViLWNvbnRyaWJ1dGlvbnMvaGlja2xlL2hpY2tsZS9sb2FkZXJzL2xvYWRfbnVtcHkucHlxDFgIAAAAPGxhbWJkYT5xDUtpQwBxDikpdHEPUnEQY2hpY2tsZS5sb2FkZXJzLmxvYWRfbnVtcHkKX19kaWN0X18KaA1OTn1xEU50cRJScRMu')
_NONE = b'\x80\x03c__builtin__\nNoneType\n.'


def _attr(node, name, value):
    node.attrs.create(name, value, dtype=_ASCII)


class Writer:
    def __init__(self, use_dill=False):
        self.use_dill = use_dill

    def cls(self, c):
        s = dill.dumps(c, protocol=3) if self.use_dill else pickle.dumps(c, protocol=3)
        return np.array(s)

    def mark(self, node, base, c):
        _attr(node, 'base_type', base)
        node.attrs['type'] = self.cls(c)

    def put(self, g, name, obj):
        t = type(obj)
        if obj is None:
            d = g.create_dataset(name, data=bytearray(b'None'))
            self.mark(d, 'None', t)
        elif t in (bool, int, float, complex):
            d = g.create_dataset(name, data=obj)
            self.mark(d, t.__name__, t)
        elif t in (str, bytes):
            d = g.create_dataset(name, data=obj, dtype=h5py.string_dtype('utf-8' if t is str else 'ascii'))
            self.mark(d, t.__name__, t)
        elif t in (Constant, u.Quantity, Angle, SkyCoord, Time, Table):
            self.put_astropy(g, name, obj)
        elif isinstance(obj, np.ma.MaskedArray):
            d = g.create_dataset(name, data=obj.data)
            _attr(d, 'np_dtype', str(obj.dtype))
            self.mark(d, 'ndarray_masked_data', np.ma.MaskedArray)
            m = g.create_dataset(name + '_mask', data=np.ma.getmaskarray(obj))
            self.mark(m, 'ndarray_masked_mask', np.ndarray)
        elif t is np.ndarray and obj.dtype == object:
            d = g.create_group(name)
            _attr(d, 'np_dtype', 'object')
            _attr(d, 'base_type', 'ndarray')
            d.attrs['type'] = np.array(_LAMBDA)
            self.put(d, 'data', obj.tolist())
        elif t is np.ndarray:
            if obj.dtype.kind == 'U':
                d = g.create_dataset(name, data=obj.astype('S%d' % max(1, obj.dtype.itemsize // 4)))
            else:
                d = g.create_dataset(name, data=obj)
            _attr(d, 'np_dtype', obj.dtype.str if obj.dtype.kind in 'US' else str(obj.dtype))
            self.mark(d, 'ndarray', np.ndarray)
        elif isinstance(obj, np.generic):
            d = g.create_dataset(name, data=obj)
            _attr(d, 'np_dtype', str(d.dtype))
            self.mark(d, 'np_scalar', t)
        elif sp.issparse(obj):
            sg = g.create_group(name)
            _attr(sg, 'base_type', t.__name__)
            sg.attrs['type'] = np.array(_RETURN_FIRST)
            for part in ('data', 'indices', 'indptr', 'shape'):
                d = sg.create_dataset(part, data=getattr(obj, part))
                _attr(d, 'base_type', t.__name__ + ('' if part == 'data' else '_' + part))
                if part == 'data':
                    mod = 'scipy.sparse.' + t.__name__.split('_')[0]
                    d.attrs['type'] = np.array(b'\x80\x03c' + mod.encode() + b'\n' + t.__name__.encode() + b'\nq\x00.')
                else:
                    d.attrs['type'] = np.array(_NONE)
        elif isinstance(obj, dict):
            dg = g.create_group(name)
            for i, (k, v) in enumerate(obj.items()):
                kg = dg.create_group(('%r' % (k,)).replace('/', '\\'))
                _attr(kg, 'base_type', 'dict_item')
                _attr(kg, 'key_base_type', type(k).__name__)
                kg.attrs['key_idx'] = i
                kg.attrs['key_type'] = self.cls(type(k))
                self.put(kg, 'data', v)
            self.mark(dg, 'dict', t)
        elif t in (list, tuple, set):
            items = list(obj)
            kinds = {type(i) for i in items}
            if len(kinds) == 1 and kinds <= {bool, int, float, complex, str, bytes}:
                k = kinds.pop()
                d = g.create_dataset(name, data=np.array([i.encode('utf8') for i in items] if k is str else items))
                if k in (str, bytes):
                    _attr(d, 'str_type', k.__name__)
            else:
                d = g.create_group(name)
                for i, v in enumerate(items):
                    self.put(d, 'data_%d' % i, v)
            self.mark(d, t.__name__, t)
        else:
            d = g.create_dataset(name, data=np.array(pickle.dumps(obj, protocol=3)))
            _attr(d, 'base_type', 'pickle')

    def put_astropy(self, g, name, obj):
        t = type(obj)
        if t is Constant:
            d = g.create_dataset(name, data=obj.value, dtype='float64')
            for n in ('unit', 'abbrev', 'name', 'reference'):
                _attr(d, n, str(getattr(obj, n)))
            d.attrs['uncertainty'] = obj.uncertainty
        elif t in (u.Quantity, Angle):
            d = g.create_dataset(name, data=obj.value, dtype='float64')
            _attr(d, 'unit', obj.unit.to_string())
        elif t is SkyCoord:
            lon, lat = obj.data.lon, obj.data.lat
            d = g.create_dataset(name, data=np.stack((lon.value, lat.value), axis=-1), dtype='float64')
            _attr(d, 'lon_unit', lon.unit.to_string())
            _attr(d, 'lat_unit', lat.unit.to_string())
        elif t is Time:
            v = obj.value
            d = g.create_dataset(name, data=np.char.encode(v, 'ascii') if v.dtype.kind == 'U' else v)
            _attr(d, 'format', obj.format)
            _attr(d, 'scale', obj.scale)
        else:
            d = g.create_dataset(name, data=obj.as_array())
            d.attrs['colnames'] = [n.encode('ascii') for n in obj.colnames]
            for k, m in obj.meta.items():
                d.attrs[k] = m
        self.mark(d, 'astropy_' + t.__name__.lower(), t)


def write(obj, fn, path='/', version='4.0.1', use_dill=False):
    with h5py.File(fn, 'w') as f:
        g = f.require_group(path)
        g.attrs['HICKLE_VERSION'] = version
        g.attrs['HICKLE_PYTHON_VERSION'] = '3.6.9'
        Writer(use_dill).put(g, 'data', obj)
