import array
import collections
import datetime
import functools
import ipaddress
import operator
import pickle
import re
import types
import warnings

import hickle
import numpy as np
from hypothesis import strategies as st

from hv import eq, gen, graph, ngen, oddlib, pgen
from hv import userlib as U
from hv import io
from hv.core import Test, Violation, Discard, short

TECHNIQUE = 'property-based testing (hypothesis): differential check of hickle against pickle on generated object graphs placed into generated native skeletons, with an identity table for shared references'
LEVEL = 'exploration'
RULE = 'a foreign object sits inside a native container, is shared or has an own object graph of at least three nodes'
ASSUMPTIONS = ['pickle itself can round trip the foreign object and gives the same result twice', 'identity of objects shared between two different foreign objects or with items of object arrays is not compared']


@gen.cached
def arrays():
    # pickle does not keep the byte order
    return ngen.arrays().map(lambda a: a.astype(a.dtype.newbyteorder('=')) if a.dtype.names is None else np.zeros(a.shape, '<i4'))


@gen.cached
def plain():
    return gen.one_of(gen.scalars(), arrays(), ngen.np_scalars(), gen.number_lists(), pgen.pickled())


@gen.cached
def hashable_foreign():
    return gen.one_of(
        st.dates(), st.datetimes(), st.times(), st.timedeltas(), st.decimals(allow_nan=False), st.fractions(), st.uuids(),
        st.frozensets(gen.one_of(st.integers(), gen.texts()), max_size=4), st.builds(U.Data, st.integers(), gen.texts()),
        st.builds(range, st.integers(-5, 5), st.integers(-5, 50), st.integers(1, 4)),
        st.sampled_from([int, U.Plain, len, U.func, U.Colour.RED, U.Colour.BOTH, U.Outer.Inner, U.SINGLE, np.sin, Ellipsis, NotImplemented, type(None), str.upper]),
        st.builds(U.Frozen, st.lists(st.integers(0, 9), max_size=4)),
        st.builds(datetime.timezone, st.integers(-700, 700).map(lambda m: datetime.timedelta(minutes=m))),
        st.builds(ipaddress.IPv4Address, st.integers(0, 2 ** 32 - 1)),
        st.builds(re.compile, st.text(alphabet='abc', max_size=4)),
    )


@gen.cached
def others():
    i = plain()
    return gen.one_of(
        st.builds(lambda c, a: c(a), st.sampled_from(oddlib.ODD), i), st.sampled_from(oddlib.ODD + oddlib.LISTS),
        st.builds(lambda *a: U.Args(*a, k=a), i, i),
        st.builds(U.SlotState, i, i),
        st.builds(U.Outer.Inner, i), st.builds(lambda a: U.Outer.Inner(a).method, i), st.just(U.Outer.make),
        st.builds(lambda l: U.Gen(items=l), st.lists(i, max_size=3)), st.builds(lambda l: U.ArrayLike(items=l), st.lists(st.integers(0, 9), max_size=3)),
        st.builds(lambda l: U.Falsy(items=l), st.lists(i, max_size=2)), st.builds(lambda l: U.NoEq(items=l), st.lists(i, max_size=2)),
        st.builds(U.Err, gen.texts(), i), st.builds(ValueError, gen.texts(), i), st.just(KeyError()),
        st.builds(array.array, st.sampled_from('bhidf'), st.lists(st.integers(0, 100), max_size=4)),
        st.builds(lambda l, m: collections.deque(l, m), st.lists(i, max_size=3), gen.one_of(st.none(), st.integers(0, 5))),
        st.builds(lambda a, b: collections.ChainMap(a, b), gen.dicts(i, max_size=2), gen.dicts(i, max_size=2)),
        st.builds(lambda a: collections.UserDict({'a': a}), i), st.builds(lambda a: collections.UserList([a, a]), i), st.builds(collections.UserString, gen.texts()),
        st.builds(lambda d: types.MappingProxyType(d) and types.SimpleNamespace(**d), st.dictionaries(st.sampled_from('abc'), i, max_size=3)),
        st.builds(lambda a: functools.partial(U.func, a), i), st.builds(operator.itemgetter, st.integers(0, 3)), st.builds(operator.attrgetter, st.just('a.b')),
        st.builds(U.Arr, st.binary(max_size=12)), st.binary(max_size=300).map(bytearray),
        st.builds(lambda l: np.poly1d(l), st.lists(st.integers(1, 9), min_size=1, max_size=3)), st.builds(np.random.RandomState, st.integers(0, 99)),
        st.builds(lambda s: np.random.Generator(np.random.PCG64(s)), st.integers(0, 99)),
        st.builds(lambda l: frozenset(l), st.lists(st.builds(U.Data, st.integers(0, 9), gen.texts()), max_size=3)),
        st.builds(lambda d, f: collections.defaultdict(f, d), gen.dicts(i, max_size=3), st.sampled_from([list, None, int, U.func])),
        st.builds(lambda n: iter(list(range(n))), st.integers(0, 5)), st.builds(lambda n: U.Node(blob=b'\0x' * n), st.integers(0, 9000)),
    )


@st.composite
def graphs(draw):
    """objects referring to one another, to themselves and to data; any two edges may lead to the same target"""
    n = draw(st.integers(1, 5))
    nodes = [draw(st.sampled_from(['node', 'node', 'slots', 'list', 'dict', 'reduced', 'tuple'])) for _ in range(n)]
    data = draw(st.lists(plain(), min_size=1, max_size=3))
    objs = []
    for k in nodes:
        objs.append({'node': U.Node, 'list': list, 'dict': dict, 'slots': lambda: U.SlotState(None, None), 'reduced': lambda: U.Reduced(1),
                     'tuple': lambda: (objs[-1] if objs else 0, data[0])}[k]())
    root = U.Node(first=objs[0])
    everything = objs + data + [root]
    for _ in range(draw(st.integers(0, 7))):
        o = objs[draw(st.integers(0, n - 1))]
        t = everything[draw(st.integers(0, len(everything) - 1))]
        if type(o) is list:
            o.append(t)
        elif type(o) is dict:
            o[draw(st.sampled_from(['a', 1, (2, 'x')]))] = t
        elif isinstance(o, U.SlotState):
            setattr(o, draw(st.sampled_from('xyz')), t)
        elif isinstance(o, U.Reduced):
            o.late = t
        elif isinstance(o, U.Node):
            setattr(o, draw(st.sampled_from(['a', 'b', 'type', 'base_type'])), t)
    return root


@gen.cached
def foreign():
    return gen.one_of(pgen.pickled(), hashable_foreign(), others(), graphs())


@st.composite
def cases(draw):
    pool = [draw(foreign()) for _ in range(draw(st.integers(1, 3)))]
    hk = [draw(hashable_foreign()) for _ in range(draw(st.integers(0, 2)))]
    leaf = gen.one_of(st.tuples(st.just('ref'), st.integers(0, len(pool) - 1)), st.tuples(st.just('ref'), st.integers(0, len(pool) - 1)), st.tuples(st.just('leaf'), gen.scalars(nan=False)),
                     st.tuples(st.just('leaf'), arrays()), st.tuples(st.just('set'), st.permutations(range(len(hk)))))
    keys = gen.one_of(st.tuples(st.just('leaf'), gen.one_of(gen.texts(), st.integers(-9, 9), st.none(), st.tuples(st.integers(), gen.texts()))),
                     *([st.tuples(st.just('key'), st.integers(0, len(hk) - 1))] if hk else []))
    tree = st.recursive(leaf, lambda c: gen.one_of(
        st.tuples(st.just('list'), st.lists(c, max_size=4)), st.tuples(st.just('tuple'), st.lists(c, max_size=4)),
        st.tuples(st.just('dict'), st.lists(st.tuples(keys, c), max_size=4)),
        st.tuples(st.just('objarr'), st.lists(c, max_size=3))), max_leaves=7)
    kw = draw(st.sampled_from([{}, {}, {'compression': 'gzip'}, {'compression': 'lzf', 'shuffle': True}, {'compression': 'gzip', 'fletcher32': True, 'compression_opts': 9}]))
    return pool, hk, draw(tree), kw


def build(node, pool, hk):
    k, v = node
    if k == 'ref':
        return pool[v]
    if k == 'key':
        return hk[v]
    if k == 'leaf':
        return v
    if k == 'set':
        return {hk[i] for i in v}
    if k == 'list':
        return [build(c, pool, hk) for c in v]
    if k == 'tuple':
        return tuple(build(c, pool, hk) for c in v)
    if k == 'dict':
        return {build(a, pool, hk): build(b, pool, hk) for a, b in v}
    a = np.empty(len(v), dtype=object)
    for i, c in enumerate(v):
        a[i] = build(c, pool, hk)
    return a


def compare(node, want, got, pool, refs, where=''):
    k, v = node
    if k == 'ref':
        graph.same(want, got, where)
        if refs is not None and refs.setdefault(v, got) is not got and not isinstance(got, (int, float, complex, tuple)):
            raise eq.Diff('at %s: %s was one object and got duplicated' % (where, short(want)))
    elif k == 'key':
        graph.same(want, got, where)
    elif k == 'leaf':
        eq.same(want, got, where, loose=eq.kind(want) if eq.is_num(want) else None)
    elif type(want) is not type(got) or len(want) != len(got):
        eq.fail(where, want, got, 'container differs')
    elif k == 'set':
        graph.same(want, got, where)
    elif k == 'dict':
        last = {build(a, pool[0], pool[1]): (a, b) for a, b in v}
        for (ka, va), (kb, vb) in zip(want.items(), got.items()):
            a, b = last[ka]
            w = '%s{%s}' % (where, short(ka))
            compare(a, ka, kb, pool, refs, w + '<key>')
            compare(b, va, vb, pool, refs, w)
    else:
        if k in ('list', 'tuple') and eq.numbers_only(list(want)):
            return eq.same(want, got, where)
        for i, (c, x, y) in enumerate(zip(v, want, got)):
            if k == 'objarr' and eq.is_num(x):
                eq.same_object_number(x, y, where)
                continue
            # an object array may have to be pickled as a whole
            compare(c, x, y, pool, None if k == 'objarr' else refs, '%s[%d]' % (where, i))


def copies(objs):
    r = []
    for o in objs:
        try:
            s = pickle.dumps(o)
            x, y = pickle.loads(s), pickle.loads(pickle.dumps(pickle.loads(s)))
            graph.same(x, y)
        except (eq.Diff, pickle.PicklingError, TypeError, AttributeError, RecursionError) as e:
            raise Discard('not picklable %r' % e)
        r.append(x)
    return r


def count(node, what):
    k, v = node
    if k in ('list', 'tuple', 'objarr'):
        return sum(count(c, what) for c in v)
    if k == 'dict':
        return sum(count(a, what) + count(b, what) for a, b in v)
    return int(k in what) if k != 'set' else (len(v) if 'set' in what else 0)


def check(case, ctx):
    pool, hk, node, kw = case
    x = build(node, pool, hk)
    want_pool, want_hk = copies(pool), copies(hk)
    want = build(node, want_pool, want_hk)
    refs = count(node, ('ref',))
    foreign = count(node, ('ref', 'key', 'set'))
    ctx.nontrivial(foreign and (node[0] not in ('ref', 'leaf') or isinstance(pool[0], U.Node)), key=short(case, 4000))
    ctx.label('shared' if refs > len(pool) else 'single')
    if kw:
        ctx.label('compressed')
    fn = ctx.path()
    io.dump(x, fn, mode='w', **kw)
    got = io.load(fn)
    try:
        compare(node, want, got, (want_pool, want_hk), {})
    except eq.Diff as d:
        raise Violation('differs from what pickle restores: %s\n  object %s' % (d, short(x)))


TESTS = [Test('anywhere', cases, check, 11000, 80000)]
