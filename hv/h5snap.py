"""Content of an HDF5 file as comparable python data."""
import hashlib

import h5py
import numpy as np


def _val(v, f):
    if isinstance(v, h5py.Reference):
        return 'ref' if not v else 'ref ' + f[v].name
    if isinstance(v, np.ndarray):
        if v.dtype.kind == 'O':
            return ('O', v.shape, tuple(_val(i, f) for i in v.ravel().tolist()))
        return (v.dtype.str, v.shape, hashlib.md5(v.tobytes()).hexdigest())
    return repr(v)


def snapshot(f, pickles=True):
    out = {}

    def one(name, o):
        at = {k: _val(o.attrs[k], f) for k in o.attrs}
        if not pickles and isinstance(o, h5py.Dataset) and o.dtype == 'u1' and o.ndim == 1 and o.size > 2 and o[0] == 0x80 and o[-1] == ord('.'):
            d = 'pickled'
        elif isinstance(o, h5py.Dataset):
            d = ('ds', str(o.dtype), o.shape, o.compression, _val(o[()], f) if o.shape is not None else None)
        else:
            d = ('grp', tuple(o.keys()))
        out[name] = (d, at)
    one('/', f)
    f.visititems(one)
    return out
