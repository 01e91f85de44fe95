"""Independent writer for the hickle 3.x on-disk format (as written by real
hickle 3.4.9 with h5py 2.x: every type attribute is a one element array of
fixed length bytes).  Written from the layout of the file shipped with the
repository; never calls code under test."""
import dill
import h5py
import numpy as np
import astropy.units as u
from astropy.constants import Constant
from astropy.coordinates import Angle, SkyCoord
from astropy.table import Table
from astropy.time import Time


def _s(x):
    return np.array([x if isinstance(x, bytes) else x.encode('ascii')])


_SUBTYPE = {int: "<class 'int'>", float: "<class 'float'>",
            bool: "<class 'bool'>", complex: "<class 'complex'>"}


def put(g, obj, idx=0):
    name = 'data_%i' % idx
    t = type(obj)
    if t in (Constant, u.Quantity, Angle, SkyCoord, Time, Table):
        put_astropy(g, obj, name)
    elif isinstance(obj, np.dtype):
        d = g.create_dataset(name, shape=(1,), dtype=h5py.string_dtype())
        d[0] = str(obj)
        d.attrs['type'] = _s(b'np_dtype')
    elif obj is None:
        d = g.create_dataset(name, data=[0]); d.attrs['type'] = _s(b'none')
    elif t in _SUBTYPE:
        d = g.create_dataset(name, data=obj, dtype=t)
        d.attrs['type'] = _s(b'python_dtype')
        d.attrs['python_subdtype'] = np.bytes_(_SUBTYPE[t].encode()) if idx % 2 else _SUBTYPE[t]
    elif t is str:
        d = g.create_dataset(name, shape=(1,), dtype=h5py.string_dtype())
        d[0] = obj
        d.attrs['type'] = _s(b'string')
    elif t is bytes:
        d = g.create_dataset(name, data=np.array([obj]))
        d.attrs['type'] = _s(b'bytes')
    elif isinstance(obj, np.ma.MaskedArray):
        d = g.create_dataset(name, data=obj.data)
        m = g.create_dataset(name + '_mask', data=np.ma.getmaskarray(obj))
        d.attrs['type'] = _s(b'ndarray_masked_data')
        m.attrs['type'] = _s(b'ndarray_masked_mask')
    elif t is np.ndarray:
        d = g.create_dataset(name, data=obj); d.attrs['type'] = _s(b'ndarray')
    elif isinstance(obj, np.generic):
        d = g.create_dataset(name, data=obj)
        d.attrs['type'] = _s(b'np_scalar')
        d.attrs['np_dtype'] = np.bytes_(str(d.dtype).encode())
    elif t is dict:
        sg = g.create_group(name); sg.attrs['type'] = _s("<class 'dict'>")
        for k, v in obj.items():
            kg = sg.create_group('%r' % (k,) if isinstance(k, str) else str(k))
            kg.attrs['type'] = _s(b'dict_item')
            kg.attrs['key_type'] = _s(str(type(k)))
            put(kg, v, 0)
    elif t in (list, tuple, set):
        items = list(obj)
        kinds = {type(i) for i in items}
        if len(kinds) == 1 and kinds <= {bool, complex, float, int, str, bytes}:
            k = kinds.pop()
            data = [i.encode('utf8') for i in items] if k is str else items
            d = g.create_dataset(name, data=np.array(data))
            d.attrs['type'] = _s(str(t))
            if k in (str, bytes):
                d.attrs['py3_string_type'] = _s(str(k))
        else:
            sg = g.create_group(name); sg.attrs['type'] = _s(str(t))
            for i, v in enumerate(items):
                put(sg, v, i)
    elif t.__name__ in ('csr_matrix', 'csc_matrix', 'bsr_matrix'):
        n = t.__name__
        sg = g.create_group(name); sg.attrs['type'] = _s(n)
        for part in ('data', 'indices', 'indptr', 'shape'):
            d = sg.create_dataset(part, data=getattr(obj, part))
            d.attrs['type'] = _s(n + '_' + part)
    else:
        d = g.create_dataset(name, data=np.array([dill.dumps(obj)]))
        d.attrs['type'] = _s(b'pickle')


def put_astropy(g, obj, name):
    if isinstance(obj, Constant):
        d = g.create_dataset(name, data=obj.value, dtype='float64')
        d.attrs['type'] = _s(b'astropy_constant')
        for n in ('unit', 'abbrev', 'name', 'reference'):
            d.attrs[n] = [str(getattr(obj, n))]
        d.attrs['uncertainty'] = [obj.uncertainty]
        if obj.system:
            d.attrs['system'] = [obj.system]
    elif type(obj) in (u.Quantity, Angle):
        d = g.create_dataset(name, data=obj.value, dtype='float64')
        d.attrs['type'] = _s(b'astropy_angle' if type(obj) is Angle else b'astropy_quantity')
        d.attrs['unit'] = _s(str(obj.unit))
    elif type(obj) is SkyCoord:
        lon, lat = obj.data.lon, obj.data.lat
        d = g.create_dataset(name, data=np.stack((lon.value, lat.value), axis=-1), dtype='float64')
        d.attrs['type'] = _s(b'astropy_skycoord')
        d.attrs['lon_unit'], d.attrs['lat_unit'] = _s(str(lon.unit)), _s(str(lat.unit))
    elif type(obj) is Time:
        v = obj.value
        d = g.create_dataset(name, data=np.char.encode(v, 'ascii') if v.dtype.kind == 'U' else v)
        d.attrs['type'] = _s(b'astropy_time')
        d.attrs['format'], d.attrs['scale'] = _s(obj.format), _s(obj.scale)
    elif type(obj) is Table:
        d = g.create_dataset(name, data=obj.as_array())
        d.attrs['type'] = _s(b'astropy_table')
        d.attrs['colnames'] = np.array([n.encode('ascii') for n in obj.colnames])
        for k, v in obj.meta.items():
            d.attrs[k] = v
    else:
        raise TypeError(type(obj))


def write(obj, filename, path='/', version='3.4.9'):
    with h5py.File(filename, 'w') as f:
        f.attrs['CLASS'] = 'hickle'
        f.attrs['VERSION'] = version
        f.attrs['PYTHON_VERSION'] = '3.7.4'
        f.attrs['type'] = _s(b'hickle')
        g = f.require_group(path)
        g.attrs['type'] = _s(b'hickle')
        put(g, obj, 0)
