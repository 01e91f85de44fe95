"""Generators of scipy sparse matrices and arrays."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from .gen import cached, one_of
from . import ngen

DTYPES = ['?', 'i1', 'u1', 'i2', 'i4', 'u4', 'i8', 'u8', 'f4', 'f8', 'c8', 'c16']
COMPRESSED = ['csr_matrix', 'csc_matrix', 'bsr_matrix', 'csr_array', 'csc_array', 'bsr_array']
OTHER = ['coo_matrix', 'coo_array', 'dia_matrix', 'dia_array', 'lil_matrix', 'lil_array', 'dok_matrix', 'dok_array']


@cached
@st.composite
def sparse(draw, classes=None):
    name = draw(st.sampled_from(classes or (COMPRESSED * 2 + OTHER)))
    cls = getattr(sp, name)
    dt = np.dtype(draw(st.sampled_from(DTYPES)))
    lo = 1 if name.startswith(('bsr', 'dia')) else 0
    m, n = draw(st.integers(lo, 6)), draw(st.integers(lo, 6))
    how = draw(st.sampled_from(['raw', 'raw', 'raw', 'dense', 'empty', 'far', 'flat']))
    if how == 'empty':
        return cls((m, n), dtype=dt)
    if how == 'flat' and name in ('csr_array', 'coo_array', 'dok_array'):
        return cls(ngen.fill(draw, dt, (draw(st.integers(0, 6)),)))
    if how == 'far' and name[:3] in ('csr', 'csc', 'coo'):
        # dimension and indices beyond 2**31, 2**32
        big = draw(st.sampled_from([2**31 - 1, 2**31, 2**31 + 5, 2**32, 2**32 + 3, 2**40, 2**53 + 1, 2**62]))
        major = draw(st.integers(1, 3))
        idx = draw(st.lists(one_of(st.integers(0, big - 1), st.just(big - 1)), max_size=4))
        rows = sorted(draw(st.lists(st.integers(0, major - 1), min_size=len(idx), max_size=len(idx))))
        data = ngen.fill(draw, dt, (len(idx),))
        flip = name.startswith('csc') or (name.startswith('coo') and draw(st.booleans()))
        shape = (big, major) if flip else (major, big)
        if name.startswith('coo'):
            return cls((data, (idx, rows) if flip else (rows, idx)), shape=shape)
        ptr = np.searchsorted(rows, np.arange(major + 1)).astype('i8')
        return cls((data, np.array(idx, dtype='i8'), ptr), shape=shape)
    if how == 'raw' and name[:3] in ('csr', 'csc'):
        # unsorted, duplicate and explicit zero entries, both index widths
        major, minor = (m, n) if name.startswith('csr') else (n, m)
        counts = draw(st.lists(st.integers(0, 4 if minor else 0), min_size=major, max_size=major))
        nnz = sum(counts)
        it = np.dtype(draw(st.sampled_from(['i4', 'i8'])))
        idx = np.array(draw(st.lists(st.integers(0, max(minor - 1, 0)), min_size=nnz, max_size=nnz)), dtype=it)
        ptr = np.concatenate([[0], np.cumsum(counts)]).astype(it)
        data = ngen.fill(draw, dt, (nnz,))
        try:
            return cls((data, idx, ptr), shape=(m, n))
        except ValueError:
            return cls((m, n), dtype=dt)
    if how == 'raw' and name.startswith('bsr'):
        b, c = draw(st.integers(1, 3)), draw(st.integers(1, 3))
        counts = draw(st.lists(st.integers(0, 2), min_size=m, max_size=m))
        nnz = sum(counts)
        idx = np.array(draw(st.lists(st.integers(0, n - 1), min_size=nnz, max_size=nnz)), dtype='i4')
        ptr = np.concatenate([[0], np.cumsum(counts)]).astype('i4')
        data = ngen.fill(draw, dt, (nnz, b, c))
        return cls((data, idx, ptr), shape=(m * b, n * c))
    if how == 'raw' and name.startswith('coo') and m and n:
        nnz = draw(st.integers(0, 6))
        r = draw(st.lists(st.integers(0, m - 1), min_size=nnz, max_size=nnz))
        c = draw(st.lists(st.integers(0, n - 1), min_size=nnz, max_size=nnz))
        return cls((ngen.fill(draw, dt, (nnz,)), (r, c)), shape=(m, n))
    bits = draw(st.lists(st.integers(0, 3), min_size=1, max_size=9))
    dense = np.array([bits[i % len(bits)] for i in range(m * n)]).reshape(m, n).astype(dt)
    return cls(dense)
