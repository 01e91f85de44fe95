from hypothesis import strategies as st

from hv import gen
from hv.core import Test
from hv.io import roundtrip, expect

TECHNIQUE = 'property-based testing (hypothesis): round-trip of generated trees of built-in values against a structural equality oracle'
LEVEL = 'exploration'
RULE = 'the object contains at least one container with an item, or is a str/bytes of two or more characters, or a number outside [-5, 5]'
ASSUMPTIONS = ['acyclic objects', 'text encodable as UTF-8', 
               'numbers inside a number-only list, tuple or set are compared by value and kind, not by python/numpy type']


def check(x, ctx):
    ctx.nontrivial(gen.size(x) > 1 or (isinstance(x, (str, bytes)) and len(x) > 1) or
                   (isinstance(x, (int, float, complex)) and not (isinstance(x, (int, float)) and -5 <= x <= 5)))
    expect(x, roundtrip(x))


@gen.cached
def digits():
    """integers beyond what python converts to decimal, as descriptions of them"""
    n = st.tuples(st.sampled_from([2, 10, 16]), st.one_of(st.integers(0, 30), st.integers(600, 700), st.integers(4200, 4400), st.integers(4300, 20000)), st.integers(-2, 2), st.booleans())
    return st.tuples(st.sampled_from(['plain', 'list', 'tuple', 'set', 'key', 'value', 'tuple key', 'mixed']), st.lists(n, min_size=1, max_size=3))


def check_digits(case, ctx):
    how, spec = case
    ns = [(-1 if neg else 1) * (base ** e + d) for base, e, d, neg in spec]
    ctx.nontrivial(max(abs(n) for n in ns) > 10 ** 4300)
    x = {'plain': lambda: ns[0], 'list': lambda: ns, 'tuple': lambda: tuple(ns), 'set': lambda: set(ns), 'key': lambda: {n: i for i, n in enumerate(ns)}, 'value': lambda: {str(i): n for i, n in enumerate(ns)},
         'tuple key': lambda: {(n, 'a'): n for n in ns}, 'mixed': lambda: [ns, None, {'a': (ns[0], 'x')}]}[how]()
    expect(x, roundtrip(x))


TESTS = [
    Test('digits', digits, check_digits, 600, 8000),
    Test('tree', lambda: gen.trees(), check, 6000, 300000),
    Test('scalar', lambda: gen.scalars(), check, 2248, 50000),
    Test('numbers', lambda: gen.one_of(gen.number_lists(), gen.number_lists().map(tuple), gen.sets()), check, 3752, 100000),
    Test('dict', lambda: gen.one_of(gen.dicts(gen.scalars(), nan=True), gen.dicts(gen.trees(max_leaves=4), nan=True, max_size=14)), check, 3752, 100000),
    Test('long', lambda: gen.long_lists(gen.trees(max_leaves=3)).flatmap(lambda l: st.sampled_from([l, tuple(l)])), check, 896, 25000),
    Test('wide', lambda: gen.wide(), check, 304, 6000),
    Test('huge', lambda: gen.huge(), check, 48, 1500),
    Test('big', lambda: gen.big(), check, 752, 20000),
]
