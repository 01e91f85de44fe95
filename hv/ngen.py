"""Generators of numpy objects.  A case is drawn as an actual array, built from
a drawn dtype, shape, layout, and a drawn pool of element values."""
import numpy as np
from hypothesis import strategies as st

from .gen import cached
from . import gen, userlib

INT = ['i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8']
FLOAT = ['f2', 'f4', 'f8', 'g']
COMPLEX = ['c8', 'c16', 'G']


def _order(d, big):
    d = np.dtype(d)
    if d.char == 'G':      # numpy's own pickle forgets the byte order of these
        return d
    return d.newbyteorder('>') if big else d


@cached
def number_dtypes(byteorders=True):
    return st.builds(_order, st.sampled_from(['?'] + INT + FLOAT + COMPLEX), st.booleans() if byteorders else st.just(False))


@cached
def string_dtypes():
    return st.builds(lambda k, n, b: _order('%s%d' % (k, n), b), st.sampled_from('USS'), st.integers(1, 9), st.booleans())


@cached
def time_dtypes():
    return st.builds(lambda k, un, b: _order('%s8[%s]' % (k, un), b), st.sampled_from('Mm'),
                     st.sampled_from(['Y', 'M', 'D', 'h', 's', 'ms', 'us', 'ns', '25s']), st.just(False))


@cached
def struct_dtypes():
    sub = gen.one_of(number_dtypes(), string_dtypes(), number_dtypes().map(lambda d: np.dtype((d, (2,)))))
    names = st.lists(st.sampled_from(['a', 'b', 'x y', 'é', 'data', 'mask', 'f0', 'Z/q']), min_size=1, max_size=4, unique=True)
    base = names.flatmap(lambda ns: st.tuples(*[sub for _ in ns]).map(lambda ds: np.dtype(list(zip(ns, ds)))))
    return gen.one_of(base, base, names.flatmap(lambda ns: st.tuples(*[sub for _ in ns]).map(lambda ds: np.dtype(list(zip(ns, ds)), align=True))),
                     base.map(lambda d: np.dtype([('outer', d), ('n', 'i4')])))


@cached
def shapes(max_dims=4, min_dims=0):
    return gen.one_of(st.lists(st.integers(0, 3), min_size=min_dims, max_size=max_dims).map(tuple),
                     st.lists(st.integers(1, 4), min_size=min_dims, max_size=max_dims).map(tuple),
                     st.integers(10, 40).map(lambda n: (n,)))


@cached
def _pools(dt, order):
    return st.lists(_pool(np.dtype(dt)), min_size=1, max_size=5)


def _pool(dtype):
    """strategy of element values valid for dtype"""
    k = dtype.kind
    if k == 'b':
        return st.booleans()
    if k in 'iu':
        i = np.iinfo(dtype)
        return gen.one_of(st.sampled_from([int(i.min), int(i.max), 0, 1, int(i.max) // 2]), st.integers(int(i.min), int(i.max)))
    if k == 'f':
        w = min(dtype.itemsize, 8) * 8
        return gen.one_of(st.floats(width=w), st.sampled_from([0.0, -0.0, float('nan'), float('inf'), -float('inf'), 1.5]))
    if k == 'c':
        w = 32 if dtype.itemsize == 8 else 64
        f = gen.one_of(st.floats(width=w), st.sampled_from([0.0, -0.0, float('nan'), float('inf')]))
        return st.builds(complex, f, f)
    if k == 'U':
        return st.text(st.characters(blacklist_categories=('Cs',)), max_size=dtype.itemsize // 4)
    if k == 'S':
        return st.binary(max_size=dtype.itemsize)
    if k in 'Mm':
        return gen.one_of(st.integers(-10 ** 6, 10 ** 6), st.just(np.iinfo('i8').min))
    raise TypeError(dtype)


def fill(draw, dtype, shape):
    n = int(np.prod(shape, dtype=int))
    if dtype.subdtype is not None:
        raise TypeError
    if dtype.names:
        a = np.zeros(shape, dtype)
        for name in dtype.names:
            sd = dtype[name]
            base, sh = sd.subdtype if sd.subdtype else (sd, ())
            a[name] = fill(draw, base, tuple(shape) + tuple(sh))
        return a
    pool = draw(_pools(dtype.str, dtype.byteorder)) if n else [0]
    if dtype.kind in 'Mm':
        v = np.array([pool[(i * 7 + i // 5) % len(pool)] for i in range(n)], dtype='i8').reshape(shape)
        return v.astype('i8').view(dtype.newbyteorder('=')).astype(dtype) if n else np.zeros(shape, dtype)
    with np.errstate(all='ignore'):
        a = np.zeros(n, dtype)
        for i in range(n):
            a[i] = pool[(i * 7 + i // 5) % len(pool)]
    return a.reshape(shape)


LAYOUTS = ['C', 'F', 'rev', 'step', 'T', 'bcast', 'ro', 'swap']


def layout(a, how):
    if a.ndim == 0:
        return a
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'rev':
        return a[::-1]
    if how == 'step':
        b = np.repeat(a, 2, axis=0)
        return b[::2]
    if how == 'T':
        return a.T
    if how == 'bcast':
        return np.broadcast_to(a, (2,) + a.shape)
    if how == 'swap':
        return a.swapaxes(0, -1)
    if how == 'ro':
        a.flags.writeable = False
    return a


@cached
@st.composite
def arrays(draw, dtypes=None, max_dims=4, min_dims=0, lay=True):
    dt = draw(dtypes if dtypes is not None else gen.one_of(number_dtypes(), number_dtypes(), string_dtypes(), time_dtypes(), struct_dtypes()))
    a = fill(draw, dt, draw(shapes(max_dims, min_dims)))
    return layout(a, draw(st.sampled_from(LAYOUTS))) if lay else a


@cached
@st.composite
def object_arrays(draw, items=None):
    items = items if items is not None else gen.one_of(gen.scalars(), gen.trees(max_leaves=3))
    shape = draw(shapes(3))
    n = int(np.prod(shape, dtype=int))
    pool = draw(st.lists(items, min_size=1, max_size=4))
    a = np.empty(n, dtype=object)
    for i in range(n):
        a[i] = pool[(i * 7 + i // 5) % len(pool)]
    return a.reshape(shape)


@cached
@st.composite
def matrices(draw):
    dt = draw(gen.one_of(number_dtypes(), number_dtypes(), string_dtypes()))
    return np.matrix(fill(draw, dt, (draw(st.integers(0, 3)), draw(st.integers(0, 3)))))


@cached
@st.composite
def masked(draw):
    a = draw(arrays(gen.one_of(number_dtypes(), number_dtypes(), string_dtypes(), struct_dtypes()), 3, lay=False))
    how = draw(st.integers(0, 4))
    if how == 0:
        return np.ma.array(a)
    if how == 1:
        return np.ma.array(a, mask=draw(st.booleans()))
    bits = draw(st.lists(st.booleans(), min_size=1, max_size=6))
    m = np.zeros(a.shape, bool)
    if m.ndim:
        m.ravel()[:] = [bits[i % len(bits)] for i in range(m.size)]
        m = np.array([bits[i % len(bits)] for i in range(m.size)], bool).reshape(a.shape)
    else:
        m = np.array(bits[0])
    r = np.ma.array(a, mask=m)
    return r[..., ::-1] if how == 3 and r.ndim else r


@cached
@st.composite
def np_scalars(draw):
    dt = draw(gen.one_of(number_dtypes(False), number_dtypes(False), string_dtypes(), time_dtypes(), struct_dtypes()))
    v = fill(draw, dt, (1,))[0]
    return v


@cached
@st.composite
def subclassed(draw):
    """records and arrays of classes derived from ndarray"""
    how = draw(st.sampled_from(['recarray', 'recarray', 'record', 'chararray', 'memmap', 'user', 'user', 'matrix', 'info', 'object']))
    if how in ('recarray', 'record'):
        a = draw(arrays(struct_dtypes(), 3))
        a = a.view(np.recarray)
        return a.ravel()[0] if how == 'record' and a.size else a
    if how == 'chararray':
        return draw(arrays(string_dtypes(), 3, 1)).view(np.char.chararray)
    if how == 'matrix':
        return draw(matrices()).view(userlib.SubMatrix)
    if how == 'object':
        return draw(object_arrays()).view(userlib.SubArray)
    if how == 'info':
        a = draw(arrays(gen.one_of(number_dtypes(False), string_dtypes()), 3).filter(lambda a: a.dtype.isnative)).view(userlib.InfoArray)
        a.info = draw(st.sampled_from(['', 'text', 7, None, ('a', 1)]))
        return a
    a = draw(arrays(gen.one_of(number_dtypes(), number_dtypes(), string_dtypes(), time_dtypes(), struct_dtypes()), 3))
    return a.view(np.memmap if how == 'memmap' and a.ndim else userlib.SubArray)


@cached
def dtypes():
    return gen.one_of(number_dtypes(), string_dtypes(), time_dtypes(), struct_dtypes(), st.just(np.dtype(object)),
                     st.just(np.dtype('U')), st.just(np.dtype('S')), st.just(np.dtype('V7')), number_dtypes().map(lambda d: np.dtype((d, (2, 3)))))


@cached
def anything():
    return gen.one_of(arrays(), arrays(), object_arrays(), matrices(), masked(), np_scalars(), np_scalars(), dtypes())


COMPRESSIONS = [{}, {}, {'compression': 'gzip'}, {'compression': 'gzip', 'compression_opts': 9, 'shuffle': True}, {'compression': 'lzf'},
                {'compression': 'lzf', 'fletcher32': True}, {'shuffle': True, 'fletcher32': True, 'compression': 'gzip', 'compression_opts': 1}]


@cached
def compressions():
    return st.sampled_from(COMPRESSIONS)


@gen.cached
def huge():
    """large arrays of many dtypes, layouts and dimensions"""
    def build(n, dt, how, seed):
        dt = np.dtype(dt)
        if dt.kind in 'US':
            a = np.array(['%x' % (i * seed) for i in range(min(n, 2500))]).astype(dt)
        else:
            a = np.random.RandomState(seed).randint(0, 256, n * dt.itemsize, 'u1')
            a = (a % 2).view(dt)[:n] if dt.kind == 'b' else a.view(dt)
        m = len(a)
        if how == 'column':
            a = a.reshape(m, 1)
        elif how == 'row':
            a = a.reshape(1, m)
        elif how == 'two':
            a = a[:m // 7 * 7].reshape(7, -1)
        elif how == 'fortran':
            a = np.asfortranarray(a[:m // 5 * 5].reshape(-1, 5))
        elif how == 'stride':
            a = a[::3]
        elif how == 'reverse':
            a = a[::-1]
        elif how == 'masked' and dt.kind not in 'US':
            a = np.ma.array(a, mask=np.arange(m) % 3 == 0)
        return a
    return st.builds(build, gen.lengths(1000, 500000), st.sampled_from(['f8', 'i8', 'u1', '>i4', 'f4', '?', 'c16', 'i2', '>f8', 'U5', 'S6', 'f2', 'u8', 'U3', 'S9']),
                     st.sampled_from(['flat', 'column', 'row', 'two', 'fortran', 'stride', 'reverse', 'masked']), st.integers(1, 99))


@cached
@st.composite
def extreme(draw):
    """arrays of many dimensions or with many fields"""
    k = draw(st.sampled_from(['dims', 'fields', 'wide item']))
    if k == 'dims':
        shape = [1] * draw(gen.one_of(st.integers(5, 64), st.integers(30, 35)))
        for i in draw(st.lists(st.integers(0, len(shape) - 1), max_size=3)):
            shape[i] = draw(st.sampled_from([2, 3, 0]))
        a = fill(draw, draw(number_dtypes().filter(lambda d: d.isnative and d.char not in 'gG')), tuple(shape))
        return np.ma.array(a, mask=np.arange(a.size).reshape(a.shape) % 2 == 0) if draw(st.integers(0, 3)) == 0 else a
    n = draw(gen.one_of(st.integers(5, 40), st.integers(500, 2600), st.sampled_from([255, 256, 257, 999, 1000, 1001])))
    if k == 'fields':
        pad = draw(st.sampled_from([0, 0, 30, 100]))
        dt = np.dtype([('%s%d' % ('f' * pad or 'x', i), draw(st.sampled_from(['i4', 'f8'])) if i < 3 else 'u2') for i in range(n)])
    else:
        dt = np.dtype([('a', 'f8', (n * draw(st.sampled_from([1, 3, 10])),)), ('b', 'S%d' % n)])
    a = np.zeros(draw(st.sampled_from([(), (1,), (3,), (2, 2)])), dt)
    a[dt.names[0]] = 1
    a[dt.names[-1]] = b'12' if k != 'fields' else 7
    return a if a.ndim or draw(st.booleans()) else a[()]
