import warnings
from collections import OrderedDict
from fractions import Fraction

import hickle
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from hv import aeq, agen, eq, gen, ngen, sgen, v3file
from hv import targets as tg
from hv.core import Test, Violation, short
from hv.io import expect

TECHNIQUE = 'property-based testing (hypothesis): an independent writer produces hickle 3 files of generated objects; load is compared with the object written (differential against the format)'
LEVEL = 'exploration'
RULE = 'the object holds at least one container with an item, or is an array or sparse matrix'
ASSUMPTIONS = ['text without NUL characters, bytes without trailing NUL (the version 3 format can not hold them)', 'order of dict entries is not stored in version 3 files',
               'dict keys str without slash, int, float, complex, bool or tuple thereof', 'byte order of arrays without dimensions is not kept', 'no masked arrays inside lists',
               'astropy objects as the version 3 loaders describe them: float64 values, ascii units, coordinates of the default frame without distance, arrays of times, tables of plain columns']


@gen.cached
def text():
    return gen.texts().map(lambda s: s.replace('\0', ''))


@gen.cached
def byts():
    return gen.binaries().map(lambda b: b.rstrip(b'\0'))


@gen.cached
def int64():
    return gen.one_of(st.integers(-5, 5), st.integers(-2 ** 63, 2 ** 63 - 1))


@gen.cached
def scalars():
    return gen.one_of(st.none(), st.booleans(), int64(), gen.floats(False), gen.complexes(False), text(), byts())


@gen.cached
def keys():
    simple = gen.one_of(text().map(lambda s: s.replace('/', '')), text().map(lambda s: s.replace('/', '')), int64(), st.booleans(), gen.floats(False).filter(lambda v: v == v and abs(v) != float('inf')),
                       st.builds(complex, st.integers(-3, 3), st.integers(-3, 3)))
    return gen.one_of(simple, simple, st.lists(gen.one_of(st.integers(-3, 3), st.sampled_from(['a', 'b c']), st.none()), max_size=3).map(tuple))


def uniq(d):
    """drop keys which have the same name in the file"""
    seen, out = set(), {}
    for k, v in d.items():
        n = '%r' % (k,) if isinstance(k, str) else str(k)
        if n not in seen and n not in ('.', '..', ''):
            seen.add(n)
            out[k] = v
    return out


@gen.cached
@st.composite
def sparse(draw):
    return draw(sgen.sparse(['csr_matrix', 'csc_matrix', 'bsr_matrix']))


@gen.cached
def homogeneous():
    return gen.one_of(st.lists(int64(), min_size=1, max_size=12), st.lists(gen.floats(), min_size=1, max_size=12), st.lists(st.booleans(), min_size=1, max_size=8),
                     st.lists(gen.complexes(False), min_size=1, max_size=5), st.lists(text(), min_size=1, max_size=12), st.lists(byts(), min_size=1, max_size=6))


@gen.cached
def arrays():
    return ngen.arrays(ngen.number_dtypes().filter(lambda d: d.char not in 'gG'), 3, lay=False).map(lambda a: a if a.ndim else a.astype(a.dtype.newbyteorder('=')))


@gen.cached
def np_scalars():
    @st.composite
    def one(draw):
        return ngen.fill(draw, draw(ngen.number_dtypes(False).filter(lambda d: d.char not in 'gG')), (1,))[0]
    return one()


def alike(k):
    return not (isinstance(k, bytes) or k is None or isinstance(k, str) and '/' in k or k == float('inf') or isinstance(k, tuple) and any(isinstance(i, (bytes, tuple)) for i in k))


@gen.cached
def odd():
    """values without a loader of their own: pickled"""
    return gen.one_of(st.integers(2 ** 40, 2 ** 60).map(lambda n: frozenset([n, 'a'])), st.sampled_from([range(3), Ellipsis, slice(1, 2), np.sum, int]), st.builds(Fraction, st.integers(-9, 9), st.integers(1, 9)),
                      st.builds(bytearray, byts()), st.dates(), st.lists(st.tuples(text(), int64()), min_size=1, max_size=3).map(OrderedDict),
                      st.sampled_from(['float64', 'int8', '>i4', '|S3', '<U2', 'bool', 'complex64']).map(np.dtype))


@gen.cached
def trees(top=True):
    leaf = gen.one_of(scalars(), scalars(), homogeneous(), arrays(), np_scalars(), sparse(), odd(), agen.storable())

    def extend(c):
        return gen.one_of(st.lists(c, max_size=5), st.lists(c, max_size=5).map(tuple), st.dictionaries(keys(), c, max_size=5).map(uniq), gen.twin_dicts(c, True, alike).map(uniq), homogeneous().map(tuple),
                         homogeneous().filter(lambda l: all(i == i for i in l)).map(set), st.lists(c, min_size=10, max_size=14),
                         st.dictionaries(keys(), masked(), min_size=1, max_size=2).map(uniq))
    return st.recursive(leaf, extend, max_leaves=8)


@gen.cached
def masked():
    return st.builds(lambda v, m: np.ma.array(v, mask=(m * len(v))[:len(v)]), st.lists(st.integers(-9, 9), min_size=1, max_size=4), st.lists(st.booleans(), min_size=1, max_size=4))


def ordered(x):
    """dicts in a canonical order of keys"""
    if type(x) is dict:
        return {k: ordered(v) for k, v in sorted(x.items(), key=lambda p: repr((type(p[0]).__name__, p[0])))}
    if type(x) in (list, tuple):
        return type(x)(ordered(i) for i in x)
    return x


@gen.cached
@st.composite
def wide_cases(draw):
    case = draw(cases())
    case['obj'] = draw(gen.wide())
    return case


@gen.cached
@st.composite
def cases(draw):
    return {'obj': draw(gen.one_of(trees(), trees(), masked())), 'path': draw(st.sampled_from(['/', '/', '/a', '/a/b'])), 'kinds': draw(st.lists(st.sampled_from(tg.LOAD_KINDS), min_size=1, max_size=2)),
            'spell': draw(st.booleans()), 'times': draw(st.sampled_from([1, 1, 1, 2, 3])), 'version': draw(st.sampled_from(['3.4.9', '3.4.9', '3.0.0', '3.1.2', '3.4.3.dev1', '3.3.1']))}


def check(case, ctx):
    x, path = case['obj'], case['path']
    ctx.nontrivial(gen.size(x) > 1 or isinstance(x, np.ndarray) or sp.issparse(x))
    fn = ctx.path()
    v3file.write(x, fn, path, case['version'])
    raw = open(fn, 'rb').read()
    for k in case['kinds']:
        base = path.strip('/') if k == 'h5group' else ''
        with tg.load_target(k, fn, base) as t:
            kw = {} if base else {'path': path if case['spell'] else path.strip('/') or '/'}
            for n in range(case['times']):
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter('always')
                    try:
                        y = hickle.load(t.obj, **kw, **t.kw)
                    except Exception as e:
                        raise Violation('load of version 3 file through %s %s raised %s' % (k, kw, short(e, 600))) from e
                if not any('v3' in str(i.message) or 'legacy' in str(i.message).lower() for i in w):
                    raise Violation('no warning about legacy loading: %s' % [str(i.message) for i in w])
                if not t.alive():
                    raise Violation('handle closed')
                if not t.untouched():
                    raise Violation('load changed the class of the handle passed in to %s' % type(t.handle))
                expect(ordered(x), ordered(y), what='version 3 file loaded through %s' % k)
        if k != 'h5file_rw' and open(fn, 'rb').read() != raw:
            raise Violation('loading modified the file')
    if tg.open_files():
        raise Violation('file left open')


TESTS = [Test('wide', wide_cases, check, 240, 4000), Test('v3', cases, check, 12000, 200000)]
