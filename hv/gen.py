"""Generators of values."""
from hypothesis import strategies as st


def cached(fn):
    """strategies are costly to build and validate: build each one only once"""
    memo = {}

    def get(*a, **k):
        key = (a, tuple(sorted(k.items())))
        try:
            r = memo.get(key)
        except TypeError:
            return fn(*a, **k)
        if r is None:
            r = memo[key] = fn(*a, **k)
        return r
    get.__name__ = fn.__name__
    return get


def one_of(*strategies):
    """st.one_of takes unions apart, also mapped ones, and drops duplicates, so that the strategy with the most alternatives wins;
    here every argument counts once"""
    index = st.integers(0, len(strategies) - 1)

    @st.composite
    def pick(draw):
        return draw(strategies[draw(index)])
    return pick()


_SPECIAL_TEXT = ['', '/', '\\', '"', "'", '.', '..', 'a/b', 'a\\b', '\\/', 'b"x"', '"x"', 'data', 'data0', 'data1', 'data_0',
                 'None', 'True', 'False', '1', '1.5', 'nan', '\0', 'a\0b', 'x\0', ' ', '\n', '\r\n', '\t', 'é', 'ü', '\u20ac',
                 '\U0001f600', 'b', "b'x'", '%s', '{}', 'hickle_types_table', 'type', 'base_type', '/data/x', '\ufeff', '\x7f', '#', '\\\\', '""']

_chars = st.characters(blacklist_categories=('Cs',))


@cached
def texts(max_size=12):
    return one_of(st.sampled_from(_SPECIAL_TEXT), st.text(_chars, max_size=max_size),
                     st.text(st.sampled_from('/\\"\'.\0ab1é'), max_size=max_size))


@cached
def binaries(max_size=12):
    return one_of(st.sampled_from([s.encode('utf8') for s in _SPECIAL_TEXT] + [b'\xff', b'\xff\xfe', b'\x00\x00', b'\x80']),
                     st.binary(max_size=max_size))


def _boundary_ints():
    out = set()
    for k in (7, 8, 15, 16, 31, 32, 52, 53, 54, 62, 63, 64, 65, 127, 128, 200):
        for d in (-1, 0, 1):
            out.add(2 ** k + d)
            out.add(-2 ** k + d)
    return sorted(out)


@cached
def ints():
    return one_of(st.integers(-5, 5), st.sampled_from(_boundary_ints()), st.integers(), st.integers(-2 ** 63, 2 ** 63 - 1),
                     st.integers(-2 ** 300, 2 ** 300))


@cached
def small_ints():
    return one_of(st.integers(-5, 5), st.integers(-2 ** 63, 2 ** 63 - 1))


@cached
def floats(nan=True):
    base = st.floats(allow_nan=False)
    edge = st.sampled_from([0.0, -0.0, 1.5, -1.5, float('inf'), float('-inf'), 5e-324, 1.7976931348623157e308, 0.1] + ([float('nan')] if nan else []))
    return one_of(edge, base)


@cached
def complexes(nan=True):
    return st.builds(complex, floats(nan), floats(nan))


@cached
def numbers(nan=True):
    return one_of(st.booleans(), ints(), floats(nan), complexes(nan))


@cached
def scalars(nan=True):
    return one_of(st.none(), st.booleans(), ints(), floats(nan), complexes(nan), texts(), binaries())


@cached
def number_lists(nan=True, max_size=15):
    """lists with a common kind of number, the ones stored as a single dataset"""
    return one_of(
        st.lists(st.integers(-100, 100), min_size=1, max_size=max_size),
        st.lists(st.integers(-2 ** 63, 2 ** 63 - 1), min_size=1, max_size=max_size),
        st.lists(ints(), min_size=1, max_size=max_size),
        st.lists(floats(nan), min_size=1, max_size=max_size),
        st.lists(st.booleans(), min_size=1, max_size=max_size),
        st.lists(complexes(nan), min_size=1, max_size=max_size),
        st.lists(one_of(st.booleans(), ints()), min_size=1, max_size=max_size),
        st.lists(one_of(small_ints(), floats(nan)), min_size=1, max_size=max_size),
        st.lists(numbers(nan), min_size=1, max_size=max_size),
    )


@cached
def hashables(nan=False):
    base = one_of(scalars(nan), st.booleans(), st.integers(-3, 3))
    return one_of(base, st.recursive(base, lambda c: st.lists(c, max_size=4).map(tuple), max_leaves=6),
                     number_lists(nan, 4).map(tuple))


@cached
def keys(nan=False):
    return one_of(texts(), texts(), binaries(), st.booleans(), ints(), floats(nan), complexes(nan), st.none(),
                     st.lists(one_of(st.integers(-3, 3), texts(4), st.none()), max_size=3).map(tuple), hashables(nan))


TWINS = [[1, '1', '1.0', '01', (1,), '(1,)', ('1',), b'1', 'True', '1/', '/1', '+1', '1j', 1j], [0, '0', '', b'', '0.0', (), '()', 'False', 'None', None, (None,), (0,), ('',)],
         ['a', b'a', ('a',), 'A', 'a/b', 'a\\b', ('a', 'b'), '/a', 'a/', 'data0', 'a.b', (b'a',)], [1.5, '1.5', '1.50', (1.5,), 'inf', float('inf'), -1.5, '-1.5'], [(1, 2), '(1, 2)', '1, 2', ((1, 2),), (1, 2, 3), ('1', '2'), (1, '2')]]
QUOTED = ["'a'", '"a"', "b'a'", "'1'", '"1"', "''", '""', "'a", '"a/b"', "'a\\\\b'", "('a',)", "('1',)", '"', "'"]


def twin_keys(quoted=True, ok=lambda k: True):
    """keys which are distinct but look alike as text, together in one list"""
    groups = [[k for k in g if ok(k)] for g in TWINS + ([QUOTED + ['a', 'b', '1', 1]] if quoted else [])]
    return st.sampled_from(groups).flatmap(lambda g: st.lists(st.sampled_from(g), min_size=2, max_size=6))


def twin_dicts(values, quoted=True, ok=lambda k: True):
    return st.builds(lambda ks, vs: {k: vs[i % len(vs)] for i, k in enumerate(ks)}, twin_keys(quoted, ok), st.lists(values, min_size=2, max_size=3))


@cached
def sets(nan=False):
    return one_of(st.lists(st.integers(-2 ** 63, 2 ** 63 - 1), max_size=8).map(set), st.lists(texts(), max_size=6).map(set),
                     st.lists(binaries(), max_size=6).map(set), st.lists(numbers(nan), max_size=6).map(set),
                     st.lists(hashables(nan), max_size=6).map(set))


@cached
def dicts(values, nan=False, max_size=6):
    return one_of(st.dictionaries(keys(nan), values, max_size=max_size),
                     st.dictionaries(texts(), values, max_size=max_size),
                     twin_dicts(values),
                     st.dictionaries(ints(), values, max_size=max_size))


@cached
def long_lists(values):
    """more than ten items: item names do not sort in item order any more"""
    return st.builds(lambda xs, n: (xs * (n // max(1, len(xs)) + 1))[:n],
                     st.lists(values, min_size=1, max_size=4), st.integers(10, 120))


@cached
def trees(leaf=None, nan=True, max_leaves=14):
    leaf = scalars(nan) if leaf is None else leaf

    def extend(c):
        return one_of(st.lists(c, max_size=6), st.lists(c, max_size=6).map(tuple), dicts(c), number_lists(nan),
                         number_lists(nan).map(tuple), sets(), st.lists(texts(), max_size=4), st.lists(c, min_size=10, max_size=13))
    return st.recursive(one_of(leaf, number_lists(nan), number_lists(nan).map(tuple), sets()), extend, max_leaves=max_leaves)


def depth(x):
    if isinstance(x, dict):
        return 1 + max([depth(k) for k in x] + [depth(v) for v in x.values()] + [0])
    if isinstance(x, (list, tuple, set, frozenset)):
        return 1 + max([depth(i) for i in x] + [0])
    return 0


def size(x):
    if isinstance(x, dict):
        return 1 + sum(size(k) + size(v) for k, v in x.items())
    if isinstance(x, (list, tuple, set, frozenset)):
        return 1 + sum(size(i) for i in x)
    return 1


def nest(x, how):
    for h in how:
        x = [x] if h == 0 else (x,) if h == 1 else {'k': x} if h == 2 else {3: x, 'y': None} if h == 3 else [0, x]
    return x


@cached
def big():
    """sizes a hand written test does not use: long text, long number lists, many items or keys, deep nesting"""
    return one_of(
        st.builds(lambda s, n: s * n, texts().filter(bool), st.integers(50, 6000)),
        st.builds(lambda s, n: s * n, binaries().filter(bool), st.integers(50, 6000)),
        st.builds(lambda xs, n: xs * n, number_lists(max_size=6), st.integers(20, 300)),
        st.builds(lambda xs, n: tuple(xs * n), number_lists(max_size=6), st.integers(20, 300)),
        st.builds(nest, scalars(), st.lists(st.integers(0, 4), min_size=10, max_size=150)),
        st.builds(lambda n, k, v: {k(i): v for i in range(n)}, st.integers(30, 150),
                  st.sampled_from([str, float, lambda i: -i, lambda i: 'a/%d' % i, lambda i: (i, 'x'), lambda i: b'%d' % i, lambda i: 2 ** 70 + i]), scalars()),
        st.builds(lambda n, k: {k(i) for i in range(n)}, st.integers(30, 300),
                  st.sampled_from([str, lambda i: i / 2, lambda i: -i, lambda i: b'%d' % i, lambda i: 2 ** 70 + i, lambda i: (i, 'x')])),
        st.builds(lambda s, n, v: {s * n: v}, texts().filter(bool), st.integers(10, 100), scalars()),
    )


def _wide_items():
    return [lambda i: i, lambda i: 'x%d' % i, lambda i: i / 4, lambda i: b'%d' % i, lambda i: [i], lambda i: [i, 'a'], lambda i: None, lambda i: i % 3 == 0, lambda i: complex(i, 1),
            lambda i: (i, None), lambda i: {'k': i}, lambda i: []]


@cached
def wide(lo=90, hi=1100):
    """lists, tuples and dicts with hundreds of items which differ from each other and do not fit one dataset"""
    def build(fs, n, how):
        xs = [fs[i % len(fs)](i) for i in range(n - 1)] + ['end' if how != 'list_none' else None]
        if how.startswith('list'):
            return [None] + xs
        if how == 'tuple':
            return (None,) + tuple(xs)
        if how == 'dict':
            return {'k%d' % i: x for i, x in enumerate(xs)}
        return {i: x for i, x in enumerate(xs)}
    return st.builds(build, st.lists(st.sampled_from(_wide_items()), min_size=1, max_size=4), one_of(st.integers(lo, 130), st.integers(130, 400), st.integers(990, hi), st.integers(lo, 300)),
                     st.sampled_from(['list', 'list_none', 'tuple', 'dict', 'dict_int', 'list']))


@cached
def lengths(lo, hi):
    """lengths spread over orders of magnitude, also right around powers of two and ten"""
    from math import log2
    near = [n + d for k in range(10, 23) for n in (2 ** k,) for d in (-1, 0, 1)] + [10 ** k + d for k in range(3, 7) for d in (-1, 0, 1)]
    return one_of(st.sampled_from([n for n in near if lo <= n <= hi]), st.floats(log2(lo), log2(hi)).map(lambda e: int(2 ** e)))


@cached
def huge():
    """text, bytes and number lists of sizes at which buffers, chunks and counters of any kind run over"""
    def text(s, n, tail):
        return (s * (n // len(s) + 1))[:n] + tail

    def nums(f, n):
        return [f(i) for i in range(n)]
    chars = st.sampled_from(['a', 'ab\n', '\u00e9', 'x\u20ac', '\U0001f600', 'lorem ipsum ', '\0z'])
    plain = one_of(st.builds(text, chars, lengths(60000, 3000000), st.sampled_from(['', 'end', '\0'])),
                      st.builds(lambda s, n, t: text(s.encode(), n, t), chars, lengths(60000, 3000000), st.sampled_from([b'', b'end', b'\0'])))
    numbers = st.builds(nums, st.sampled_from([float, int, lambda i: i % 2 == 0, lambda i: complex(0, i), lambda i: i * 2 ** 40, lambda i: -i / 3]), lengths(1000, 20000))
    one = one_of(plain, plain, numbers, numbers.map(tuple), lengths(1000, 6000).map(lambda n: set(range(n))))
    return st.builds(lambda x, y, how: x if how == 0 else [x, None, y] if how == 1 else {'k': x, 'l': [y, x]} if how == 2 else ('z', x), one, plain, st.integers(0, 3))
