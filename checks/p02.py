"""Sharing: build a random DAG, dump, load, compare identity partition of the two graphs."""
import collections
import datetime
import decimal

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from hv import aeq, eq, gen
from hv.core import Test, Violation, short
from hv.io import roundtrip, expect

TECHNIQUE = 'property-based testing (hypothesis): generated object DAGs; identity partition of all places before dump compared with the one after load'
LEVEL = 'exploration'
RULE = 'at least one container, string, bytes, array or pickled object is reachable through two or more places'
ASSUMPTIONS = ['acyclic graphs', 'identity of numbers, bools, None and of items of number-only sequences is not promised by python and not checked',
               'strings, bytes and tuples are compared for the direction shared stays shared; distinct mutable objects must stay distinct']

KINDS = ('list', 'tuple', 'dict', 'set', 'str', 'bytes', 'array', 'objarray', 'masked', 'sparse', 'pickled', 'number', 'keydict', 'numlist', 'strarray', 'quantity', 'refused')
MUTABLE = (list, dict, set, np.ndarray, sp.sparray, sp.spmatrix)


@st.composite
def graphs(draw):
    """list of node recipes; children refer to earlier nodes only; last one is the root"""
    n = draw(st.integers(2, 12))
    nodes = []
    for i in range(n):
        kinds = KINDS if i else ('list', 'str', 'bytes', 'array', 'pickled', 'numlist', 'strarray', 'masked', 'sparse', 'dict', 'quantity', 'refused')
        k = draw(st.sampled_from(kinds))
        kids = []
        if k in ('list', 'tuple', 'dict', 'set', 'objarray', 'keydict') and i:
            kids = draw(st.lists(st.integers(0, i - 1), min_size=0 if k == 'list' else 1, max_size=6 if draw(st.booleans()) else 14))
        nodes.append((k, kids, draw(st.integers(0, 3))))
    nodes.append((draw(st.sampled_from(['list', 'tuple', 'dict'])),
                  draw(st.lists(st.integers(0, n - 1), min_size=2, max_size=13)), 0))
    return nodes


def hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def build(recipe):
    import astropy.units as u
    from astropy.coordinates import Longitude
    objs = []
    for i, (k, kids, v) in enumerate(recipe):
        ch = [objs[j] for j in kids]
        if k == 'list':
            o = list(ch)
        elif k == 'tuple':
            o = tuple(ch)
        elif k == 'dict':
            o = {('k%d' % n if (n + v) % 3 else n): c for n, c in enumerate(ch)}
        elif k == 'keydict':
            # children as keys (through key value pairs) when hashable
            o = {}
            for n, c in enumerate(ch):
                if hashable(c) and isinstance(c, (tuple, str, bytes, datetime.date, decimal.Decimal)):
                    o[c] = ch[-1 - n]
                else:
                    o[(n, 'x')] = c
        elif k == 'set':
            o = {c for c in ch if hashable(c) and isinstance(c, (tuple, str, bytes, datetime.date, decimal.Decimal, float))}
        elif k == 'str':
            o = ''.join(['text', str(v), '/' if v == 2 else '']) if v else 'd\xe9%d' % i
        elif k == 'bytes':
            o = bytes([v + 1, 2, 0]) * (v + 1)
        elif k == 'array':
            o = np.arange(v * 2.0).reshape((v, 2)) if v else np.array(float(i))
        elif k == 'strarray':
            o = np.array(['a', 'bc', ''][:v + 1])
        elif k == 'objarray':
            o = np.empty(len(ch), dtype=object)
            for n, c in enumerate(ch):
                o[n] = c
        elif k == 'masked':
            o = np.ma.array(np.arange(3) + v, mask=[0, 1, 0])
        elif k == 'sparse':
            o = [sp.csr_matrix, sp.csc_array, sp.coo_matrix, sp.bsr_array][v](np.eye(2) * (i + 1))
        elif k == 'pickled':
            o = [datetime.date(2000 + i, 1, 2), decimal.Decimal(i), frozenset((i, 'x')), range(i + 1)][v]
        elif k == 'quantity':
            o = [u.Quantity([1.5, 2.], 'm'), u.Quantity(2.5, 's')][v % 2]
        elif k == 'refused':
            # there is a loader for the type but it does not support this object, it is pickled instead
            o = [collections.defaultdict(list, {i: [v]}), u.Quantity([1, 2], 'm', dtype=int), sp.dok_array(np.eye(2) * i), Longitude([190., 20.], 'deg', wrap_angle=180 * u.deg)][v]
        elif k == 'numlist':
            o = [i, v] if v else [float(v)]
        else:
            o = [i, i + 0.5, bool(v), complex(i, v)][v]
        objs.append(o)
    return objs[-1]


def children(x):
    """(label, child) pairs; sets are unordered: paired by canonical value"""
    if isinstance(x, (list, tuple)) and not eq.numbers_only(x):
        return [(n, c) for n, c in enumerate(x)]
    if isinstance(x, dict) and not isinstance(x, collections.defaultdict):
        out = []
        for n, (k, v) in enumerate(x.items()):
            out.append((('key', n), k))
            out.append((('val', n), v))
        return out
    if isinstance(x, (set, frozenset)) and type(x) is set:
        return sorted(((repr(eq.canon(c)), c) for c in x if not eq.is_num(c)), key=lambda p: p[0])
    if isinstance(x, np.ndarray) and x.dtype == object and not isinstance(x, np.ma.MaskedArray):
        items = x.ravel().tolist()
        # arrays of sequences may have to be pickled as a whole: no identity promised across that border
        if not any(isinstance(c, (list, tuple, np.ndarray, range, np.generic, sp.sparray, sp.spmatrix)) for c in items):
            return [(n, c) for n, c in enumerate(items)]
    return []


# keys of these exact types are stored as text of the node name: no identity kept
def text_key(k):
    return k is None or type(k) in (str, bytes, bool, int, float, complex)


def walk(x, keys_too=True):
    """list of (path, object) in a deterministic order, following every place"""
    out = []
    stack = [((), x)]
    while stack:
        p, o = stack.pop()
        out.append((p, o))
        if len(out) > 3000:
            return None
        for lab, c in reversed(children(o)):
            if isinstance(lab, tuple) and lab[0] == 'key' and text_key(c):
                continue
            stack.append((p + (lab,), c))
    return out


def trackable(o):
    return not (o is None or eq.is_num(o) or isinstance(o, (bool, str, bytes, tuple)) and len(o) == 0)


def check(recipe, ctx):
    obj = build(recipe)
    before = walk(obj)
    if before is None:
        return
    kw = {}
    if sum(v for _, _, v in recipe) % 4 == 0:
        kw = {'compression': 'gzip'} if len(recipe) % 2 else {'compression': 'lzf', 'shuffle': True}
    loaded = roundtrip(obj, **kw)
    expect(obj, loaded)
    after = walk(loaded)
    if after is None or [p for p, _ in before] != [p for p, _ in after]:
        raise Violation('places differ after load\n  dumped %s\n  loaded %s' % (short(obj), short(loaded)))
    first = {}
    shared = 0
    for n, (p, o) in enumerate(before):
        if not trackable(o):
            continue
        if id(o) in first:
            shared += 1
            m = first[id(o)]
            if after[m][1] is not after[n][1]:
                raise Violation('object shared by places %s and %s is loaded as two objects: %s\n  in %s' % (
                    before[m][0], p, short(o, 200), short(obj)))
        else:
            first[id(o)] = n
    owner = {}
    for n, (p, o) in enumerate(after):
        if not isinstance(o, MUTABLE):
            continue
        if id(o) in owner:
            m = owner[id(o)]
            if before[m][1] is not before[n][1]:
                raise Violation('distinct objects at places %s and %s are loaded as one object: %s\n  in %s' % (
                    before[m][0], p, short(o, 200), short(obj)))
        else:
            owner[id(o)] = n
    ctx.nontrivial(shared > 0)


# ---- sharing of sub components across two sub trees, large fan out --------------------------------
@st.composite
def fans(draw):
    leaf = draw(st.sampled_from(['list', 'str', 'bytes', 'array', 'dict', 'pickled', 'masked', 'strarray', 'set', 'tuple']))
    pattern = draw(st.lists(st.integers(0, 3), min_size=2, max_size=40))
    outer = draw(st.sampled_from(['list', 'tuple', 'dict', 'nested']))
    return leaf, pattern, outer


def check_fan(case, ctx):
    leaf, pattern, outer = case

    def mk(i):
        return {'list': lambda: [i, 'a'], 'str': lambda: 'text%d' % (i // 2) + 'x' * 3, 'bytes': lambda: b'abc%d' % (i // 2), 'array': lambda: np.zeros(2),
                'dict': lambda: {'a': 1}, 'pickled': lambda: datetime.date(2001, 1, 1 + i // 2), 'masked': lambda: np.ma.array([1, 2], mask=[0, 1]),
                'strarray': lambda: np.array(['x', 'yy']), 'set': lambda: {'a', 1}, 'tuple': lambda: ('a', [i])}[leaf]()
    objs = [mk(i) for i in range(4)]
    items = [objs[i] for i in pattern]
    if outer == 'list':
        x = items
    elif outer == 'tuple':
        x = tuple(items)
    elif outer == 'dict':
        x = {'k%d' % n: o for n, o in enumerate(items)}
    else:
        x = [[o, {'v': (o, 'z')}] for o in items]
    y = roundtrip(x)
    expect(x, y)

    def refs(r):
        if outer == 'dict':
            return list(r.values())
        if outer == 'nested':
            return [o for it in r for o in (it[0], it[1]['v'][0])]
        return list(r)
    a, b = refs(x), refs(y)
    for i in range(len(a)):
        for j in range(i):
            if a[i] is a[j] and b[i] is not b[j]:
                raise Violation('shared object loaded twice: places %d and %d of %s' % (j, i, short(x)))
            if a[i] is not a[j] and b[i] is b[j] and isinstance(b[i], MUTABLE):
                raise Violation('distinct objects merged: places %d and %d of %s' % (j, i, short(x)))
    ctx.nontrivial(len(set(pattern)) < len(pattern))


# ---- references created and dropped while dumping: temporary objects must not be mistaken for earlier ones
class Fresh(object):
    """pickled by reduce into freshly created parts"""
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return type(o) is Fresh and o.v == self.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'Fresh(%r)' % (self.v,)


@st.composite
def temporaries(draw):
    return draw(st.lists(st.tuples(st.sampled_from(['dictkey', 'sparse', 'masked', 'objarray', 'quantity', 'table', 'fresh', 'skycoord']), st.integers(0, 9)),
                         min_size=2, max_size=14))


def check_temporaries(case, ctx):
    import astropy.units as u
    from astropy.table import Table

    items = []
    for k, i in case:
        if k == 'dictkey':
            items.append({(i, 'x'): 'v%d' % i, ('y', i): [i]})
        elif k == 'sparse':
            items.append(sp.random(3, 3, 0.5, format=['csr', 'csc', 'coo', 'lil', 'dia'][i % 5], random_state=i))
        elif k == 'masked':
            items.append(np.ma.array(np.arange(i + 1), mask=np.arange(i + 1) % 2))
        elif k == 'objarray':
            items.append(np.array(['t%d' % i, i, None, [i]], dtype=object))
        elif k == 'quantity':
            items.append(u.Quantity(np.arange(i) * 1.5, 'km'))
        elif k == 'table':
            items.append(Table({'a': np.arange(i + 1), 'b': np.arange(i + 1) * 2.5}, meta={'i': i}))
        elif k == 'skycoord':
            from astropy.coordinates import SkyCoord
            items.append(SkyCoord(ra=i * u.deg, dec=1 * u.deg))
        else:
            items.append(Fresh([i, 'x%d' % i]))
    expect(items, roundtrip(items), aeq.same)
    ctx.nontrivial(len({k for k, _ in case}) > 1)


TESTS = [
    Test('graph', graphs, check, 7504, 150000),
    Test('fan', fans, check_fan, 1800, 30000),
    Test('temporaries', temporaries, check_temporaries, 752, 10000),
]
