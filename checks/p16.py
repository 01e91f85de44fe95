import warnings

import h5py
import hickle
import numpy as np
from hickle import lookup
from hypothesis import strategies as st

from hv import aeq, gen, ngen, pgen
from hv.core import Test, Violation, short

TECHNIQUE = 'property-based testing (hypothesis): files of generated objects are read back with plain h5py; pickled payloads, native datasets and warnings are counted and compared with a reference model'
LEVEL = 'exploration'
RULE = 'native: the object has at least two leaves; mixed: at least one foreign and one native leaf; any: at least two leaves'
ASSUMPTIONS = ['string arrays are not empty', 'integers beyond 62 bits and mixtures of number types in one list are only checked for the absence of pickled data']


@gen.cached
def np_native():
    n = ngen.arrays(ngen.number_dtypes().filter(lambda d: d.char not in 'gG'), 3)
    s = st.builds(lambda v, k: np.array(v) if k else np.array([i.encode('ascii', 'replace') for i in v]), st.lists(st.text(alphabet='abc \u00e9z', min_size=1, max_size=4), min_size=1, max_size=4), st.booleans())
    return gen.one_of(n, n, s)


@gen.cached
def native(max_leaves=10):
    leaf = gen.one_of(gen.scalars(), gen.number_lists(), np_native(), gen.sets(), st.text(max_size=8))
    return st.recursive(leaf, lambda c: gen.one_of(st.lists(c, max_size=5), st.lists(c, max_size=5).map(tuple), gen.dicts(c, max_size=5)), max_leaves=max_leaves)


def dump(x, fn, kw):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        hickle.dump(x, fn, mode='w', **kw)
    return [i for i in w if issubclass(i.category, lookup.SerializedWarning)]


def survey(fn):
    """pickled payloads and contents of all other datasets"""
    pickles, prints = [], set()
    with h5py.File(fn, 'r') as f:
        def one(name, o):
            if not isinstance(o, h5py.Dataset) or h5py.check_ref_dtype(o.dtype):
                return
            if 'type' not in o.attrs:
                pickles.append(name)
                return
            if o.shape is None:
                return
            v = o[()]
            prints.add(fingerprint(np.asarray(v)))
            if o.dtype.itemsize == 1:
                prints.add(np.asarray(v).tobytes())
            elif isinstance(v, (str, bytes)):
                prints.add(bytes(v) if isinstance(v, bytes) else v.encode())
        if isinstance(f['data'], h5py.Dataset):
            one('data', f['data'])
        else:
            f['data'].visititems(one)
    return pickles, prints


def fingerprint(a):
    if a.dtype.kind not in 'biufc':
        return None
    b = a.astype(a.dtype.newbyteorder('='))
    return (b.dtype.kind, b.dtype.itemsize, b.shape if b.size else 0, b.tobytes())


def leaves(x, out):
    t = type(x)
    if t is int and abs(x) > 2 ** 62:
        return
    if t in (list, tuple):
        kinds = {type(i) for i in x}
        if len(kinds) == 1 and kinds <= {int, float, complex, bool}:
            a = np.array(x)
            if a.dtype.kind in 'bifc' and not any(type(i) is int and abs(i) > 2 ** 62 for i in x):
                out.append((x, [fingerprint(a)]))
            return
        if kinds <= {int, float, complex, bool}:
            return
        for i in x:
            leaves(i, out)
    elif t is dict:
        for k, v in x.items():
            leaves(v, out)
    elif t is np.ndarray:
        if x.dtype.kind in 'biufc':
            out.append((x, [fingerprint(x)]))
        elif x.dtype.kind == 'U' and x.ndim == 0:
            out.append((x, [str(x).encode('utf8')]))
    elif t in (int, float, complex, bool):
        a = np.asarray(x)
        if a.dtype.kind in 'bifc':
            # a scalar which shares a list with other numbers is part of the list
            out.append((x, [fingerprint(a)]))
    elif t is str and x:
        out.append((x, [x.encode('utf8')]))
    elif t is bytes and x:
        out.append((x, [x]))


def missing(x, prints):
    out = []
    leaves(x, out)
    for v, fp in out:
        if not any(p in prints for p in fp):
            return v
    return None


@gen.cached
@st.composite
def native_cases(draw):
    return {'compress': draw(ngen.compressions()), 'obj': draw(native())}


def check_native(case, ctx):
    x = case['obj']
    ctx.nontrivial(gen.size(x) > 1)
    fn = ctx.path()
    w = dump(x, fn, case['compress'])
    pickles, prints = survey(fn)
    if pickles:
        raise Violation('native data pickled at %s' % pickles)
    if w:
        raise Violation('serialization warning for native data: %s' % w[0].message)
    m = []
    leaves(x, m)
    for v, fp in m:
        if not any(p in prints for p in fp):
            raise Violation('no dataset in the file has the content %s' % short(v))


@gen.cached
@st.composite
def mixed_cases(draw):
    foreign = draw(st.lists(pgen.pickled(), min_size=1, max_size=4))
    hashable = [i for i, o in enumerate(foreign) if ok_hash(o)]
    one = st.integers(0, len(foreign) - 1).map(lambda i: ('F', i))
    nat = native(3).map(lambda v: ('N', {'v': v}))
    c = st.recursive(gen.one_of(one, nat), lambda c: gen.one_of(st.tuples(st.just('L'), st.lists(c, max_size=4)), st.tuples(st.just('T'), st.lists(c, max_size=4)),
                                                              st.tuples(st.just('D'), st.lists(c, max_size=4)),
                                                              st.tuples(st.just('K'), st.lists(st.tuples(st.sampled_from(hashable or [0]), c), max_size=2))), max_leaves=6)
    return {'compress': draw(ngen.compressions()), 'foreign': foreign, 'hashable': hashable, 'shape': ('L', [draw(c), ('F', 0), draw(c), draw(nat)])}


def ok_hash(o):
    try:
        hash(o)
        return True
    except TypeError:
        return False


def build(shape, foreign, hashable, used, nat):
    k, v = shape
    if k == 'F':
        used[id(foreign[v])] = foreign[v]
        return foreign[v]
    if k == 'N':
        nat.append(v)
        return v
    if k == 'K':
        out = {}
        for i, s in v:
            if i in hashable:
                if foreign[i] not in out:
                    used[id(foreign[i])] = foreign[i]
                    out[foreign[i]] = build(s, foreign, hashable, used, nat)
        return out
    items = [build(s, foreign, hashable, used, nat) for s in v]
    return items if k == 'L' else tuple(items) if k == 'T' else {'k%d' % i: x for i, x in enumerate(items)}


def check_mixed(case, ctx):
    used, nat = {}, []
    x = build(case['shape'], case['foreign'], case['hashable'], used, nat)
    ctx.nontrivial(bool(used) and bool(nat))
    fn = ctx.path()
    w = dump(x, fn, case['compress'])
    pickles, prints = survey(fn)
    if len(pickles) != len(used):
        raise Violation('%d foreign objects but %d pickled payloads %s' % (len(used), len(pickles), pickles))
    if len(w) != len(used):
        raise Violation('%d foreign objects but %d serialization warnings' % (len(used), len(w)))
    for v in nat:
        m = missing(v, prints)
        if m is not None:
            raise Violation('no dataset in the file has the content %s' % short(m))


@gen.cached
@st.composite
def any_cases(draw):
    return {'compress': draw(ngen.compressions()), 'obj': draw(gen.one_of(pgen.mixed(), pgen.bundles()))}


def check_any(case, ctx):
    x = case['obj']
    ctx.nontrivial(gen.size(x) > 1)
    fn = ctx.path()
    w = dump(x, fn, case['compress'])
    pickles, _ = survey(fn)
    if len(pickles) != len(w):
        raise Violation('%d pickled payloads but %d serialization warnings' % (len(pickles), len(w)))


TESTS = [Test('huge', lambda: st.builds(lambda x, c: {'compress': c, 'obj': x}, gen.huge(), ngen.compressions()), check_native, 40, 1000), Test('native', native_cases, check_native, 6304, 100000), Test('mixed', mixed_cases, check_mixed, 3600, 50000), Test('any', any_cases, check_any, 2160, 30000)]
