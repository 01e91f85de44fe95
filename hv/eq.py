"""Oracles: what "the loaded object is the dumped one" means."""
import collections
import math

import numpy as np

NUM = (bool, int, float, complex)


class Diff(Exception):
    pass


EXTRA = []      # (classes, function(a, b, where)) registered by hv.aeq


def is_num(x):
    """exact python number / numpy bool, integer, float or complex scalar"""
    return type(x) in NUM or (isinstance(x, (np.number, np.bool_)) and x.dtype.kind in 'biufc')


def kind(x):
    if isinstance(x, (bool, np.bool_)):
        return 0
    if isinstance(x, (int, np.integer)):
        return 1
    if isinstance(x, (float, np.floating)):
        return 2
    return 3


def _parts(x):
    """exact numeric content of a number: (real, imag) as int or float/longdouble"""
    if isinstance(x, (bool, np.bool_)):
        return int(x), 0
    if isinstance(x, (int, np.integer)):
        return int(x), 0
    if isinstance(x, (complex, np.complexfloating)):
        return x.real, x.imag
    return x, 0


def _same_real(a, b):
    if a is b:
        return True
    fa, fb = not isinstance(a, int), not isinstance(b, int)
    if fa and a != a:
        return fb and b != b
    if fb and b != b:
        return False
    if isinstance(a, np.floating) and a.dtype.itemsize <= 8:
        a = float(a)
    if isinstance(b, np.floating) and b.dtype.itemsize <= 8:
        b = float(b)
    if isinstance(a, int) and isinstance(b, np.floating) or isinstance(b, int) and isinstance(a, np.floating):
        # longdouble against int: compare exactly
        f, i = (b, a) if isinstance(a, int) else (a, b)
        return bool(np.isfinite(f)) and int(f) == i and f == np.floor(f)
    if a != b:
        return False
    if fa and fb and a == 0:
        return math.copysign(1, a) == math.copysign(1, b)
    return True


def same_number(a, b):
    ra, ia = _parts(a)
    rb, ib = _parts(b)
    if not _same_real(ra, rb):
        return False
    if isinstance(ia, int) != isinstance(ib, int):
        return ia == ib
    return _same_real(ia, ib)


def fail(where, a, b, why=''):
    def s(x):
        try:
            r = repr(x)
        except Exception as e:
            r = '<unprintable %r>' % e
        return r if len(r) < 400 else r[:400] + '...'
    raise Diff('at %s: %s\n  dumped %s %s\n  loaded %s %s' % (where or 'top', why, type(a).__name__, s(a), type(b).__name__, s(b)))


def canon(x, loose=False):
    """hashable canonical form of a hashable builtin value (set items, keys)"""
    if is_num(x):
        r, i = _parts(x)
        def one(v):
            if v != v:
                return 'nan'
            if isinstance(v, int):
                return v
            if v == 0:
                return 0 if i == 0 and False else ('z', math.copysign(1, v))
            if isinstance(v, np.floating) and v.dtype.itemsize <= 8:
                v = float(v)
            return int(v) if v == v and not math.isinf(v) and v == math.floor(v) and isinstance(v, float) else v
        a, b = one(r), one(i)
        if a == ('z', 1.0):
            a = 0
        if b == ('z', 1.0):
            b = 0
        return ('num', a, b)
    if isinstance(x, tuple):
        return (type(x).__name__,) + tuple(canon(i) for i in x)
    if isinstance(x, frozenset):
        return ('frozenset', frozenset(collections.Counter(canon(i) for i in x).items()))
    return (type(x).__name__, x)


def common_kind(items):
    """highest kind of number; no integer type holds both unsigned 64 bit and signed integers"""
    k = max(kind(i) for i in items)
    if k == 1 and any(isinstance(i, np.uint64) for i in items) and not all(isinstance(i, (np.unsignedinteger, bool, np.bool_)) for i in items):
        return 2
    return k


def numbers_only(items):
    return bool(items) and all(is_num(i) for i in items)


def same(a, b, where='', loose=None, strict=False):
    """raise Diff unless b is an acceptable restored version of a

    loose: highest kind among the siblings of a number stored in a number-only
    sequence; such numbers may come back as numerically equal numpy scalars of
    the common kind (documented behaviour of hickle)."""
    if is_num(a):
        if type(a) is type(b) and same_number(a, b):
            return
        if loose is not None and is_num(b) and kind(b) in (kind(a), loose) and same_number(a, b):
            return
        fail(where, a, b, 'number differs' if is_num(b) else 'not a number')
    if type(a) is not type(b):
        fail(where, a, b, 'type differs')
    if a is None:
        return
    for classes, fn in EXTRA:
        if isinstance(a, classes):
            return fn(a, b, where)
    if isinstance(a, (str, bytes, bytearray)):
        if a != b:
            fail(where, a, b, 'differs')
        return
    if isinstance(a, np.ma.MaskedArray):
        return same_masked(a, b, where)
    if isinstance(a, np.ndarray):
        return same_array(a, b, where)
    if isinstance(a, np.void):
        if a.dtype != b.dtype or a.tobytes() != b.tobytes():
            if not same_struct(np.array(a), np.array(b)):
                fail(where, a, b, 'void scalar differs')
        return
    if isinstance(a, np.generic):          # datetime64, ...
        if a.dtype != b.dtype or not (a == b or (a != a and b != b)):
            fail(where, a, b, 'scalar differs')
        return
    if isinstance(a, np.dtype):
        if a != b or a.names != b.names:
            fail(where, a, b, 'dtype differs')
        return
    if isinstance(a, (list, tuple, collections.deque)):
        if len(a) != len(b):
            fail(where, a, b, 'length differs')
        lo = common_kind(a) if numbers_only(a) and not isinstance(a, collections.deque) else None
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, '%s[%d]' % (where, i), lo)
        return
    if isinstance(a, (set, frozenset)):
        if len(a) != len(b):
            fail(where, a, b, 'size differs')
        ca = collections.Counter(canon(i) for i in a)
        cb = collections.Counter(canon(i) for i in b)
        if ca != cb:
            fail(where, a, b, 'items differ')
        if numbers_only(list(a)):
            hi = common_kind(a)
            lo = {kind(i) for i in a}
            if any(kind(i) != hi and kind(i) not in lo for i in b):
                fail(where, a, b, 'kind of numbers differs')
        return
    if isinstance(a, dict):
        if len(a) != len(b):
            fail(where, a, b, 'number of keys differs')
        for (ka, va), (kb, vb) in zip(a.items(), b.items()):
            try:
                w = '%s{%r}' % (where, ka)
            except ValueError:       # more digits than python prints
                w = '%s{huge}' % where
            lo = None
            if is_num(ka) and is_num(va) and (type(ka) not in NUM or ka != ka):
                lo = common_kind((ka, va))    # stored as tuple (key, value) of numbers
            same(ka, kb, w + '<key>', lo)
            same(va, vb, w, lo)
        if isinstance(a, collections.defaultdict) and a.default_factory is not b.default_factory:
            fail(where, a, b, 'default_factory differs')
        return
    if a == b:
        return
    fail(where, a, b, 'differs')


def same_struct(a, b):
    """structured arrays: compare field by field (padding bytes do not count)"""
    if a.dtype.names:
        return all(same_struct(np.asarray(a[n]), np.asarray(b[n])) for n in a.dtype.names)
    try:
        plain_array(a, b, '')
    except Diff:
        return False
    return True


def plain_array(a, b, where):
    k = a.dtype.kind
    if k == 'O':
        for i, (x, y) in enumerate(zip(a.ravel().tolist() if a.ndim else [a.item()], b.ravel().tolist() if b.ndim else [b.item()])):
            same(x, y, '%s.flat[%d]' % (where, i), loose=3 if is_num(x) else None) if not is_num(x) else same_object_number(x, y, '%s.flat[%d]' % (where, i))
        return
    if k == 'V' and a.dtype.names:
        if not same_struct(a, b):
            fail(where, a, b, 'structured content differs')
        return
    if k in 'fc' and a.dtype.itemsize not in (16 if k == 'f' else 32,):
        if a.tobytes() == b.tobytes():
            return
    elif k not in 'fcMm':
        if k == 'T' or a.tobytes() != b.tobytes():
            if not np.array_equal(a, b):
                fail(where, a, b, 'content differs')
        return
    if k in 'Mm':
        if not np.array_equal(a, b, equal_nan=True):
            fail(where, a, b, 'content differs')
        return
    parts = [(a, b)] if k == 'f' else [(a.real, b.real), (a.imag, b.imag)]
    for x, y in parts:
        nx, ny = np.isnan(x), np.isnan(y)
        if not np.array_equal(nx, ny) or not np.array_equal(x[~nx], y[~ny]) or \
                not np.array_equal(np.signbit(x[~nx]), np.signbit(y[~ny])):
            fail(where, a, b, 'content differs')


def same_object_number(x, y, where):
    if not is_num(y) or not same_number(x, y):
        fail(where, x, y, 'number differs')


def same_array(a, b, where=''):
    if a.size == 0 and a.dtype.kind == 'U' and isinstance(b, np.ndarray) and b.dtype == a.dtype.newbyteorder('='):
        a = a.astype(b.dtype)      # pickled; numpy's own pickle does not keep the byte order
    if a.dtype != b.dtype or a.dtype.byteorder.replace('=', '<').replace('|', '') != b.dtype.byteorder.replace('=', '<').replace('|', ''):
        fail(where, a.dtype, b.dtype, 'dtype differs')
    if a.shape != b.shape:
        fail(where, a.shape, b.shape, 'shape differs')
    plain_array(np.asarray(a), np.asarray(b), where)
    if type(a).__name__ == 'InfoArray' and a.info != b.info:
        fail(where, a.info, b.info, 'state differs')


def same_masked(a, b, where=''):
    if a.dtype != b.dtype and not (a.size == 0 and a.dtype.kind == 'U' and b.dtype == a.dtype.newbyteorder('=')):
        fail(where, a.dtype, b.dtype, 'dtype differs')
    if a.shape != b.shape:
        fail(where, a.shape, b.shape, 'shape differs')
    if a is np.ma.masked:
        if b is not np.ma.masked:
            fail(where, a, b, 'masked constant differs')
        return
    if not same_struct(np.ma.getmaskarray(a), np.ma.getmaskarray(b)):
        fail(where, a, b, 'mask differs')
    plain_array(np.asarray(a.data), np.asarray(b.data), where)
