import collections
import warnings

import hickle
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from hv import aeq, agen, eq, gen, ngen, sgen, v4file
from hv import targets as tg
from hv.core import Test, Violation, short
from hv.io import expect

TECHNIQUE = 'property-based testing (hypothesis): an independent writer produces hickle 4.0 files of generated objects; load is compared with the object written (differential against the format)'
LEVEL = 'exploration'
RULE = 'the object holds at least one container with an item, or is an array or sparse matrix'
ASSUMPTIONS = ['text without NUL characters, bytes without trailing NUL (the 4.0 format can not hold them)', 'items of string arrays are ASCII',
               'dict keys str without quotes, backslashes or control characters, int, float, complex, bool, None or tuple thereof',
               'integers of 64 bits', 'byte order of arrays without dimensions is not kept']


@gen.cached
def ascii_text():
    return st.text(alphabet=st.characters(min_codepoint=32, max_codepoint=126), max_size=12)


@gen.cached
def text():
    return gen.texts().map(lambda s: s.replace('\0', ''))


@gen.cached
def byts():
    return gen.binaries().map(lambda b: b.replace(b'\0', b''))


@gen.cached
def int64():
    return gen.one_of(st.integers(-5, 5), st.integers(-2 ** 63, 2 ** 63 - 1))


@gen.cached
def scalars():
    return gen.one_of(st.none(), st.booleans(), int64(), gen.floats(False), gen.complexes(False), text(), byts())


@gen.cached
def keys():
    plain = ascii_text().map(lambda s: ''.join(c for c in s if c not in '\'"\\'))
    simple = gen.one_of(plain, plain, st.sampled_from(['a/b', 'é', '日本', '/', 'x y', '', '.', '1']), int64(), st.booleans(), gen.floats(False).filter(lambda v: v == v), st.none(),
                       st.builds(complex, st.integers(-3, 3), st.integers(-3, 3)))
    return gen.one_of(simple, simple, st.lists(gen.one_of(st.integers(-3, 3), st.sampled_from(['a', 'b c']), st.none()), max_size=3).map(tuple))


@gen.cached
def homogeneous():
    return gen.one_of(st.lists(int64(), min_size=1, max_size=12), st.lists(gen.floats(), min_size=1, max_size=12), st.lists(st.booleans(), min_size=1, max_size=8),
                     st.lists(gen.complexes(False), min_size=1, max_size=5), st.lists(ascii_text(), min_size=1, max_size=12), st.lists(text(), min_size=1, max_size=6), st.lists(byts(), min_size=1, max_size=6))


@gen.cached
def arrays():
    return ngen.arrays(ngen.number_dtypes().filter(lambda d: d.char not in 'gG'), 3, lay=False).map(lambda a: a if a.ndim else a.astype(a.dtype.newbyteorder('=')))


@gen.cached
def string_arrays():
    @st.composite
    def one(draw):
        shape = draw(st.sampled_from([(), (1,), (3,), (2, 2)]))
        n = int(np.prod(shape))
        kind = draw(st.sampled_from('US'))
        v = [draw(ascii_text()) for _ in range(n)]
        a = np.array(v if kind == 'U' else [i.encode() for i in v])
        return a.reshape(shape)
    return one()


@gen.cached
def object_arrays():
    def build(v):
        a = np.empty(len(v), dtype=object)
        for i, x in enumerate(v):
            a[i] = x
        return a
    return st.lists(gen.one_of(int64(), text(), st.none(), gen.floats(False)), max_size=4).filter(lambda v: len({type(i) for i in v}) != 1).map(build)


@gen.cached
def np_scalars():
    @st.composite
    def one(draw):
        return ngen.fill(draw, draw(ngen.number_dtypes(False).filter(lambda d: d.char not in 'gG')), (1,))[0]
    return one()


@gen.cached
def masked():
    def build(v, m, dt):
        return np.ma.array(np.array(v).astype(dt), mask=np.resize(m, len(v)))
    return st.builds(build, st.lists(st.integers(-9, 9), min_size=1, max_size=4), st.lists(st.booleans(), min_size=1, max_size=4), st.sampled_from(['i8', 'f4', 'i2', 'c16', 'f8']))


def alike(k):
    return not (isinstance(k, bytes) or isinstance(k, str) and '\\' in k or isinstance(k, tuple) and any(isinstance(i, (bytes, tuple)) for i in k))


@gen.cached
def trees():
    leaf = gen.one_of(scalars(), scalars(), homogeneous(), arrays(), string_arrays(), object_arrays(), np_scalars(), masked(), sgen.sparse(['csr_matrix', 'csc_matrix', 'bsr_matrix']),
                     st.sampled_from([range(3), frozenset([1]), collections.deque([1, 2])]), agen.storable())

    def extend(c):
        d = st.dictionaries(keys(), c, max_size=5)
        return gen.one_of(st.lists(c, max_size=5), st.lists(c, max_size=5).map(tuple), d, d.map(collections.OrderedDict), gen.twin_dicts(c, False, alike), homogeneous().map(tuple),
                         homogeneous().filter(lambda l: all(i == i for i in l)).map(set), st.lists(c, min_size=10, max_size=14))
    return st.recursive(leaf, extend, max_leaves=8)


def clean(x):
    """keys with the same name in the file can not be held by the format"""
    if isinstance(x, dict):
        seen, out = set(), type(x)()
        for k, v in x.items():
            n = ('%r' % (k,)).replace('/', '\\')
            if n not in seen:
                seen.add(n)
                out[k] = clean(v)
        return out
    if type(x) in (list, tuple):
        return type(x)(clean(i) for i in x)
    return x


def plain(x):
    """items of lists of bytes are loaded as numpy.bytes_, which are bytes"""
    if type(x) is np.bytes_:
        return bytes(x)
    if type(x) in (list, tuple, set):
        return type(x)(plain(i) for i in x)
    if type(x) in (dict, collections.OrderedDict):
        return type(x)((k, plain(v)) for k, v in x.items())
    return x


@gen.cached
@st.composite
def wide_cases(draw):
    case = draw(cases())
    case['obj'] = draw(gen.wide())
    return case


@gen.cached
@st.composite
def cases(draw):
    return {'obj': clean(draw(trees())), 'path': draw(st.sampled_from(['/', '/', '/a', '/a/b'])), 'kinds': draw(st.lists(st.sampled_from(tg.LOAD_KINDS), min_size=1, max_size=2)),
            'spell': draw(st.booleans()), 'times': draw(st.sampled_from([1, 1, 2, 3])), 'dill': draw(st.booleans()), 'version': draw(st.sampled_from(['4.0.0', '4.0.1', '4.0.4']))}


def check(case, ctx):
    x, path = case['obj'], case['path']
    ctx.nontrivial(gen.size(x) > 1 or isinstance(x, np.ndarray) or sp.issparse(x))
    fn = ctx.path()
    v4file.write(x, fn, path, case['version'], case['dill'])
    for k in case['kinds']:
        raw = open(fn, 'rb').read()
        base = path.strip('/') if k == 'h5group' else ''
        with tg.load_target(k, fn, base) as t:
            kw = {} if base else {'path': path if case['spell'] else path.strip('/') or '/'}
            for n in range(case['times']):
                try:
                    y = hickle.load(t.obj, **kw, **t.kw)
                except Exception as e:
                    raise Violation('load %d of version 4 file through %s %s raised %s' % (n + 1, k, kw, short(e, 600))) from e
                if not t.alive():
                    raise Violation('handle closed')
                if not t.untouched():
                    raise Violation('load changed the class of the handle passed in to %s' % type(t.handle))
                expect(x, plain(y), what='version 4 file loaded through %s' % k)
        if k != 'h5file_rw' and open(fn, 'rb').read() != raw:
            raise Violation('loading modified the file')
    if tg.open_files():
        raise Violation('file left open')


TESTS = [Test('wide', wide_cases, check, 80, 2000), Test('v4', cases, check, 8000, 200000)]
