import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from hv import aeq, gen, ngen, sgen
from hv.core import Test, Violation
from hv.io import roundtrip, expect

TECHNIQUE = 'property-based testing (hypothesis): round-trip of generated sparse matrices (raw index arrays, all formats) against an exact comparison of class, shape, dtype and stored arrays'
LEVEL = 'exploration'
RULE = 'the sparse matrix has at least one stored element'
ASSUMPTIONS = ['values written by numpy scalar kinds bool, integer, float and complex up to complex128', 'index arrays are compared by value; scipy itself may choose their integer width']


def nnz(x):
    if sp.issparse(x):
        return x.nnz
    if isinstance(x, dict):
        return sum(nnz(i) for i in x.values())
    if isinstance(x, (list, tuple)):
        return sum(nnz(i) for i in x)
    return 0


def show(x):
    if sp.issparse(x):
        parts = {n: getattr(x, n).tolist() for n in ('data', 'indices', 'indptr', 'row', 'col', 'offsets', 'rows') if isinstance(getattr(x, n, None), np.ndarray)}
        return '%s(%s %s %s)' % (type(x).__name__, x.shape, x.dtype, parts or dict(x.items()))
    if isinstance(x, dict):
        return '{%s}' % ', '.join('%r: %s' % (k, show(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return '%s[%s]' % (type(x).__name__, ', '.join(map(show, x)))
    return repr(x)


def check(case, ctx):
    x, kw = case
    ctx.nontrivial(nnz(x) > 0, '%s %s' % (show(x), kw))
    y = roundtrip(x, **kw)
    expect(x, y)
    if sp.issparse(x) and x.nnz and x.dtype.kind != 'b' and max(x.shape) < 1000:
        # usable as a matrix, not only equal part by part
        p, q = x.toarray(), y.toarray()
        if not np.array_equal(p, q, equal_nan=True):
            raise Violation('dense form differs: %r %r' % (p, q))


def nested():
    m = sgen.sparse()
    leaf = gen.one_of(m, m, gen.scalars(), ngen.arrays(ngen.number_dtypes(), 2))
    return st.recursive(leaf, lambda c: gen.one_of(st.lists(c, min_size=1, max_size=4), st.lists(c, min_size=1, max_size=4).map(tuple),
                                                  st.dictionaries(gen.texts(), c, min_size=1, max_size=4)), max_leaves=5)


@st.composite
def shared(draw):
    """matrices whose index arrays are one and the same object"""
    a = draw(sgen.sparse(['csr_matrix', 'csr_array', 'csc_matrix', 'csc_array']))
    b = type(a)(a.shape, dtype=a.dtype)
    b.data, b.indices, b.indptr = (a.data if draw(st.booleans()) else a.data.copy()), a.indices, a.indptr
    out = [a, b]
    if draw(st.booleans()):
        out += [a.data, a.indices, a]
    if draw(st.booleans()):
        out.reverse()
    return draw(st.sampled_from([list, tuple]))(out)


@st.composite
def large(draw):
    """many stored elements, from a seed"""
    rng = np.random.default_rng(draw(st.integers(0, 2**32 - 1)))
    m, n = draw(st.integers(1, 2000)), draw(st.integers(1, 2000))
    nnz = draw(st.sampled_from([1, 1000, 4096, 5000, 70000, 131072]))
    nnz = min(nnz, m * n)
    dt = np.dtype(draw(st.sampled_from(['?', 'i1', 'i8', 'f4', 'f8', 'c16'])))
    x = sp.coo_matrix((rng.integers(0, 2, nnz).astype(dt) if dt.kind == 'b' else (rng.standard_normal(nnz) * 100).astype(dt), (rng.integers(0, m, nnz), rng.integers(0, n, nnz))), shape=(m, n))
    cls = draw(st.sampled_from(sgen.COMPRESSED + ['coo_matrix', 'coo_array']))
    return getattr(sp, cls)(x)


def check_large(case, ctx):
    x, kw = case
    ctx.nontrivial(True, '%s %s %s %d %s %s' % (type(x).__name__, x.shape, x.dtype, x.nnz, hash(x.data[:50].tobytes()), kw))
    expect(x, roundtrip(x, **kw))


TESTS = [
    Test('compressed', lambda: st.tuples(sgen.sparse(sgen.COMPRESSED), ngen.compressions()), check, 8000, 160000),
    Test('all', lambda: st.tuples(sgen.sparse(), ngen.compressions()), check, 3000, 60000),
    Test('nested', lambda: st.tuples(nested(), ngen.compressions()), check, 2400, 40000),
    Test('shared', lambda: st.tuples(shared(), ngen.compressions()), check, 1800, 30000),
    Test('large', lambda: st.tuples(large(), ngen.compressions()), check_large, 320, 8000),
]
