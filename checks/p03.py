import numpy as np
from hypothesis import strategies as st

from hv import aeq, agen, gen, ngen, sgen
from hv.core import Test
from hv.io import roundtrip, expect

TECHNIQUE = 'property-based testing (hypothesis): round-trip of generated numpy arrays, scalars, dtypes, masked arrays, matrices and nestings'
LEVEL = 'exploration'
RULE = 'array with at least one element and (two or more dimensions, or a dtype other than float64/int64, or a non contiguous layout), or numpy scalar / dtype other than float64/int64, or a nesting of such'
ASSUMPTIONS = ['classes derived from ndarray: recarray, chararray, memmap, matrix, MaskedArray, plain user classes and user classes with own __reduce__; attributes of instances of classes without own __reduce__ are not claimed, 0-d chararrays are not generated',
               'fill_value and hardness of masked arrays are not claimed', 'a numpy number as dict key whose value is a number too counts as a number-only pair', 'byte order of pickled arrays (empty strings, datetimes, complex256) is not kept by pickle itself', 'NaN payload bits of NaN are not compared']


def interesting(x):
    if isinstance(x, np.ndarray):
        return x.size > 0 and (x.ndim > 1 or x.dtype not in (np.dtype('f8'), np.dtype('i8')) or not x.flags.c_contiguous)
    if isinstance(x, np.generic):
        return x.dtype not in (np.dtype('f8'), np.dtype('i8'))
    if isinstance(x, np.dtype):
        return x not in (np.dtype('f8'), np.dtype('i8'))
    if isinstance(x, dict):
        return any(interesting(i) for i in x.values())
    if isinstance(x, (list, tuple)):
        return any(interesting(i) for i in x)
    return False


def check(case, ctx):
    x, kw = case
    ctx.nontrivial(interesting(x))
    expect(x, roundtrip(x, **kw))


def pair(s):
    return st.tuples(s, ngen.compressions())


def nested():
    item = ngen.anything()
    leaf = gen.one_of(item, item, item, gen.scalars())
    return st.recursive(leaf, lambda c: gen.one_of(st.lists(c, min_size=1, max_size=5), st.lists(c, min_size=1, max_size=5).map(tuple),
                                                  st.dictionaries(gen.one_of(gen.texts(), st.integers()), c, min_size=1, max_size=4)), max_leaves=6)


# numpy scalars among the items of lists, tuples, sets and as dict keys
def np_numbers():
    @st.composite
    def one(draw):
        return ngen.fill(draw, draw(ngen.number_dtypes(False)), (1,))[0]
    return one()


def np_number_lists():
    @st.composite
    def lists(draw):
        dts = draw(st.lists(gen.one_of(ngen.number_dtypes(False), st.none()), min_size=1, max_size=3))
        n = draw(st.integers(1, 12))
        out = []
        for i in range(n):
            d = dts[i % len(dts)]
            out.append(draw(gen.numbers()) if d is None else ngen.fill(draw, d, (1,))[0])
        return draw(st.sampled_from([list, tuple]))(out)
    return lists()


def np_keys():
    return st.dictionaries(np_numbers().filter(lambda v: v == v), gen.one_of(np_numbers(), gen.scalars()), min_size=1, max_size=4)


def native(arrays):
    return arrays.filter(lambda a: a.dtype == a.dtype.newbyteorder('='))


@gen.cached
def rich_items():
    """things numpy would like to look into when it builds an array of objects"""
    leaf = gen.one_of(gen.scalars(), native(ngen.arrays(max_dims=2, lay=False)), ngen.np_scalars(), agen.quantities(), sgen.sparse(), native(ngen.masked()), st.sampled_from([range(3), memoryview(b'ab').tobytes(), bytearray(b'xy')]))
    return st.recursive(leaf, lambda c: gen.one_of(st.lists(c, max_size=3), st.lists(c, max_size=3).map(tuple), st.dictionaries(st.sampled_from('ab'), c, max_size=2)), max_leaves=4)


TESTS = [
    Test('rich', lambda: pair(ngen.object_arrays(rich_items())), check, 840, 30000),
    Test('huge', lambda: pair(gen.one_of(ngen.huge(), st.lists(ngen.huge(), min_size=2, max_size=2))), check, 224, 6000),
    Test('extreme', lambda: pair(gen.one_of(ngen.extreme(), st.lists(ngen.extreme(), min_size=2, max_size=2))), check, 320, 8000),
    Test('array', lambda: pair(ngen.arrays()), check, 3360, 120000),
    Test('scalar', lambda: pair(ngen.np_scalars()), check, 1680, 40000),
    Test('dtype', lambda: pair(ngen.dtypes()), check, 704, 12000),
    Test('masked', lambda: pair(ngen.masked()), check, 1264, 40000),
    Test('object', lambda: pair(ngen.object_arrays()), check, 1264, 40000),
    Test('matrix', lambda: pair(ngen.matrices()), check, 704, 15000),
    Test('subclass', lambda: pair(gen.one_of(ngen.subclassed(), ngen.subclassed(), st.lists(ngen.subclassed(), min_size=1, max_size=3), st.dictionaries(st.sampled_from('ab'), ngen.subclassed(), min_size=1, max_size=2))), check, 1264, 40000),
    Test('nested', lambda: pair(nested()), check, 1264, 40000),
    Test('numberlist', lambda: pair(np_number_lists()), check, 1680, 40000),
    Test('keys', lambda: pair(np_keys()), check, 560, 15000),
]
