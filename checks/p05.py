from hypothesis import strategies as st

from hv import aeq, agen, gen, ngen
from hv.core import Test
from hv.io import roundtrip, expect

TECHNIQUE = 'property-based testing (hypothesis): round-trip of generated astropy objects against a comparison of class, values, units and defining metadata'
LEVEL = 'exploration'
RULE = 'every generated astropy object which is not a scalar float64 quantity in metres; for tables at least one row'
ASSUMPTIONS = ['times are compared by value in their own format, scale, precision, location (digits beyond what .value shows are not claimed), masked times excluded',
               'values held as numpy numbers in table meta data count as equal to the python number']


def trivial(x):
    n = type(x).__name__
    return (n == 'Quantity' and x.isscalar and str(x.unit) == 'm' and x.dtype == 'f8') or (n.endswith('Table') and len(x) == 0)


def check(case, ctx):
    x, kw = case
    ctx.nontrivial(not trivial(x))
    expect(x, roundtrip(x, **kw))


def check_nested(case, ctx):
    x, kw = case
    ctx.nontrivial(gen.size(x) > 1)
    expect(x, roundtrip(x, **kw))


def pair(s):
    return st.tuples(s, ngen.compressions())


def nested():
    leaf = gen.one_of(agen.anything(), agen.anything(), gen.scalars())
    return st.recursive(leaf, lambda c: gen.one_of(st.lists(c, min_size=1, max_size=4), st.lists(c, min_size=1, max_size=4).map(tuple),
                                                  st.dictionaries(gen.one_of(gen.texts(), st.integers()), c, min_size=1, max_size=4)), max_leaves=5)


TESTS = [
    Test('large', lambda: pair(agen.large()), check, 160, 4000),
    Test('quantity', lambda: pair(agen.quantities()), check, 4496, 60000),
    Test('angle', lambda: pair(agen.angles()), check, 3248, 40000),
    Test('time', lambda: pair(agen.times()), check, 3248, 40000),
    Test('constant', lambda: pair(agen.constants()), check, 496, 2000),
    Test('skycoord', lambda: pair(agen.skycoords()), check, 1504, 20000),
    Test('table', lambda: pair(agen.tables()), check, 4496, 60000),
    Test('nested', lambda: pair(nested()), check_nested, 2496, 30000),
]
