import collections
import io

import h5py
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from hv import aeq, agen, eq, gen, ngen, pgen, sgen, userlib
from hv.core import Test, Violation, short
from hv.io import roundtrip, expect, dump, load

TECHNIQUE = 'property-based testing (hypothesis): metamorphic relation load(dump(x, **filters)) == load(dump(x)) over generated objects and filter arguments, plus inspection of the filters found in the file'
LEVEL = 'exploration'
RULE = 'at least one filter argument is given and the object holds at least one non-scalar item'
ASSUMPTIONS = ['arguments which fit a certain shape or type only (chunk shape, maxshape, fillvalue, scaleoffset) are used with objects all arrays of which have that shape and type', 'lossy scaleoffset excluded']


def kwargs():
    def build(comp, level, shuffle, fletcher, chunks, tt, to):
        kw = {}
        if comp is not None:
            kw['compression'] = comp
            if comp == 'gzip' and level is not None:
                kw['compression_opts'] = level
        if shuffle is not None:
            kw['shuffle'] = shuffle
        if fletcher is not None:
            kw['fletcher32'] = fletcher
        if chunks:
            kw['chunks'] = True
        if tt is not None:
            kw['track_times'] = tt
        if to:
            kw['track_order'] = True
        return kw
    opt = gen.one_of(st.none(), st.booleans())
    return st.builds(build, st.sampled_from(['gzip', 'gzip', 'lzf', None, 'gzip', True, 3]), gen.one_of(st.none(), st.integers(0, 9)), opt, opt,
                     st.booleans(), opt, st.booleans())


def check(case, ctx):
    x, kw = case
    ctx.nontrivial(bool(kw) and (gen.size(x) > 1 or type(x) in (np.ndarray, str, bytes) and np.size(x) > 0))
    plain = roundtrip(x)
    other = roundtrip(x, **kw)
    expect(x, other)
    # nothing at all, not even the types of promoted numbers, depends on the filters
    if repr(plain) != repr(other) and not has_set(x):
        raise Violation('loaded with filters %s: %s\n  without %s' % (kw, short(other), short(plain)))


def has_set(x):
    if isinstance(x, (set, frozenset)):
        return True
    if isinstance(x, dict):
        return any(has_set(k) or has_set(v) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return any(has_set(i) for i in x)
    # objects whose repr is not a function of their value
    return not (x is None or isinstance(x, (bool, int, float, complex, str, bytes)) or isinstance(x, np.generic) and x.dtype.kind in 'biufc' or type(x) is np.ndarray and x.dtype.kind in 'biufcUS')


# ---- filters are applied ---------------------------------------------------------------------------------
def pickled():
    """objects which have to be pickled, standalone as well as large ones"""
    return gen.one_of(st.builds(range, st.integers(0, 9)), gen.binaries().map(bytearray), st.builds(lambda n: bytearray(n), st.integers(1000, 90000)), st.frozensets(st.integers(-9, 9)),
                     st.builds(lambda n, v: collections.deque([v] * n), st.integers(0, 999), gen.scalars(False)), st.dates(), st.builds(userlib.Plain, gen.scalars(False)))


def payload():
    """objects which consist of exactly one filtered dataset"""
    num = ngen.arrays(ngen.number_dtypes(), 3, 1).filter(lambda a: a.size > 0 and a.dtype.char not in 'gG')
    return gen.one_of(num, gen.number_lists(), gen.number_lists().map(tuple), gen.texts().filter(bool), gen.binaries().filter(bool), gen.texts().filter(bool), pickled(), masked(), sgen.sparse(['csr_matrix', 'csc_matrix', 'bsr_matrix']))


def masked():
    return st.builds(lambda v, m, dt: np.ma.array(np.array(v).astype(dt), mask=np.resize(m, len(v))), st.lists(st.integers(-9, 9), min_size=1, max_size=9), st.lists(st.booleans(), min_size=1, max_size=4), st.sampled_from(['i8', 'f4', 'i2', 'c16']))


def datasets(x):
    """number of non-empty datasets the object is stored in, at least"""
    if isinstance(x, np.ma.MaskedArray):
        return 2
    if sp.issparse(x):
        return sum(1 for part in (x.data, x.indices, x.indptr) if part.size)
    return int(stored_as_dataset(x))


@st.composite
def payloads(draw):
    xs = draw(st.lists(payload(), min_size=1, max_size=4))
    shape = draw(st.sampled_from(['one', 'list', 'tuple', 'dict', 'deep', 'objects', 'object', 'keys', 'odd keys', 'subclass']))
    return xs, shape, draw(kwargs())


def stored_as_dataset(x):
    if isinstance(x, (list, tuple)):
        ks = {eq.kind(i) for i in x}
        big = any(isinstance(i, int) and abs(i) >= 2 ** 53 for i in x)
        return not big
    return True


def check_applied(case, ctx):
    xs, shape, kw = case
    if shape == 'one':
        xs = xs[:1]
        x = xs[0]
    elif shape == 'list':
        x = [None] + list(xs)
    elif shape == 'tuple':
        x = (None,) + tuple(xs)
    elif shape == 'dict':
        x = {'k%d' % i: v for i, v in enumerate(xs)}
        x['other/slash'] = None
    elif shape == 'objects':
        # array of objects, not even one item may be something numpy takes for a dimension
        xs = [v for v in xs if not isinstance(v, (list, tuple, np.ndarray)) and not sp.issparse(v)] or ['text', b'bytes']
        x = np.empty((1, len(xs) + 1), object)
        x[0, :len(xs)] = xs
    elif shape == 'object':
        xs = [v for v in xs[:1] if isinstance(v, (str, bytes))] or ['text']
        x = np.empty((), object)
        x[()] = xs[0]
    elif shape == 'keys':
        xs = [v for v in xs if isinstance(v, tuple)] or [(1, 2, 3)]
        x = {}
        for i, v in enumerate(xs):
            x[v] = None
        xs = list(x)
    elif shape == 'odd keys':
        x = {(None, i): v for i, v in enumerate(xs)}
    elif shape == 'subclass':
        x = collections.OrderedDict(('k%d' % i, v) for i, v in enumerate(xs))
    else:
        x = {'a': [{'b': (None, v)} for v in xs]}
    want = sum(datasets(v) for v in {id(v): v for v in xs}.values())
    buf = io.BytesIO()
    dump(x, buf, **kw)
    comp = kw.get('compression')
    ctx.nontrivial(comp is not None or kw.get('shuffle') or kw.get('fletcher32'))
    name = None if comp is None else 'lzf' if comp == 'lzf' else 'gzip'
    level = kw.get('compression_opts', 4) if comp == 'gzip' else 4 if comp is True else comp
    found = 0
    with h5py.File(buf, 'r') as f:
        def visit(n, d):
            nonlocal found
            if isinstance(d, h5py.Dataset) and d.shape and d.size and 'hickle_types_table' not in n:
                if d.compression != name or (name == 'gzip' and d.compression_opts != level):
                    return
                if kw.get('shuffle') and not d.shuffle or kw.get('fletcher32') and not d.fletcher32:
                    return
                found += 1
        f.visititems(visit)
    if (name or kw.get('shuffle') or kw.get('fletcher32')) and found < want:
        raise Violation('%d of %d datasets have the filters %s in the file of %s' % (found, want, kw, short(x)))
    expect(x, load(buf))


# ---- arguments which fit certain arrays only ------------------------------------------------------------
@st.composite
def shaped(draw):
    shape = tuple(draw(st.lists(st.integers(1, 12), min_size=1, max_size=4)))
    n = int(np.prod(shape))
    dt = np.dtype(draw(st.sampled_from(['i8', 'i4', 'i2', 'u1', 'u4', 'f8', 'f4', 'c16', '?'])))
    kw = draw(kwargs())
    kw.pop('chunks', None)
    extra = draw(st.sets(st.sampled_from(['chunks', 'maxshape', 'fillvalue', 'scaleoffset']), min_size=1))
    if 'chunks' in extra:
        kw['chunks'] = tuple(draw(st.integers(1, i)) for i in shape)
    if 'maxshape' in extra:
        kw['maxshape'] = tuple(draw(st.sampled_from([None, i, i + 1])) for i in shape)
    if 'fillvalue' in extra and dt.kind in 'iuf':
        kw['fillvalue'] = draw(st.sampled_from([0, 1]))
    if 'scaleoffset' in extra and dt.kind in 'iu':
        # lossless for integers, a checksum is not possible
        kw['scaleoffset'] = 0
        kw.pop('fletcher32', None)
    arrays = []
    for i in range(draw(st.integers(1, 3))):
        a = np.resize(np.array(draw(st.lists(st.integers(0, 120), min_size=1, max_size=6))), n).astype(dt).reshape(shape)
        kind = draw(st.sampled_from(['array', 'array', 'matrix', 'masked', 'order']))
        if kind == 'matrix' and a.ndim == 2:
            a = np.matrix(a)
        elif kind == 'masked' and 'scaleoffset' not in kw:
            a = np.ma.array(a, mask=np.resize([True, False, False], n).reshape(shape))
        elif kind == 'order':
            a = np.asfortranarray(a)
        arrays.append(a)
    return arrays, draw(st.sampled_from(['one', 'one', 'list', 'dict', 'deep', 'twice'])), kw


def check_shaped(case, ctx):
    arrays, how, kw = case
    if how == 'one':
        arrays = arrays[:1]
        x = arrays[0]
    elif how == 'list':
        x = [None] + arrays
    elif how == 'dict':
        x = dict(enumerate(arrays), n=1, f=2.5, none=None, empty=[])
    elif how == 'deep':
        x = {'a': [(a, {'b': True}) for a in arrays]}
    else:
        x = arrays + [None] + arrays
    ctx.nontrivial(arrays[0].size > 1)
    buf = io.BytesIO()
    try:
        dump(x, buf, **kw)
    except Exception as e:
        raise Violation('arguments fit all arrays of %s, but dump with %s raised %r' % (short(x), kw, e)) from e
    shape = arrays[0].shape
    found = 0
    with h5py.File(buf, 'r') as f:
        def visit(n, d):
            nonlocal found
            if isinstance(d, h5py.Dataset) and d.shape == shape and d.dtype == arrays[0].dtype and 'hickle_types_table' not in n:
                found += all((d.chunks == kw['chunks'] if k == 'chunks' else d.maxshape == kw['maxshape'] if k == 'maxshape' else
                              d.fillvalue == kw['fillvalue'] if k == 'fillvalue' else d.scaleoffset is not None) for k in kw if k in ('chunks', 'maxshape', 'fillvalue', 'scaleoffset'))
        f.visititems(visit)
    if found < len(arrays):
        raise Violation('%d of %d arrays of %s were stored with %s' % (found, len(arrays), short(x), kw))
    y = load(buf)
    expect(x, y)


TESTS = [
    Test('huge', lambda: st.tuples(gen.one_of(ngen.huge(), ngen.huge(), gen.huge()), kwargs()), check, 104, 3000),
    Test('mixed', lambda: st.tuples(gen.one_of(pgen.bundles(), pgen.mixed()), kwargs()), check, 2400, 60000),
    Test('builtin', lambda: st.tuples(gen.trees(max_leaves=8), kwargs()), check, 1600, 40000),
    Test('numpy', lambda: st.tuples(ngen.anything(), kwargs()), check, 1280, 30000),
    Test('astropy', lambda: st.tuples(agen.anything(), kwargs()), check, 480, 10000),
    Test('shaped', shaped, check_shaped, 1600, 40000),
    Test('applied', payloads, check_applied, 2400, 50000),
]
