import collections
import http
import re
import signal

import hickle
from hypothesis import strategies as st

from hv import aeq, eq, gen, ngen
from hv import oddlib
from hv import userlib as U
from hv.core import Test, Violation, short
from hv.io import expect

TECHNIQUE = 'property-based testing (hypothesis): round trip of generated instances of derived classes at generated positions, compared by class and content'
LEVEL = 'exploration'
RULE = 'the object holds at least one instance of a derived class and one other item'
ASSUMPTIONS = ['classes are importable on load', 'attributes added to instances of derived classes are not part of the claim', 'no NaN as content of derived float']


@gen.cached
def hashed():
    f = gen.floats(False)
    return gen.one_of(gen.ints().map(U.MyInt), st.integers(-9, 9).map(U.MyInt), f.map(U.MyFloat), gen.complexes(False).map(U.MyComplex), gen.texts().map(U.MyStr), gen.binaries().map(U.MyBytes),
                     gen.ints().map(U.ShownInt), gen.one_of(f.map(U.ShownFloat), gen.complexes(False).map(U.ShownComplex), gen.texts().map(U.ShownStr), gen.binaries().map(U.ShownBytes)),
                     st.sampled_from(list(U.IntEn)), st.sampled_from(list(U.StrEn)), st.sampled_from([U.Flg.A, U.Flg.B, U.Flg.A | U.Flg.B, U.Flg(0)]),
                     st.sampled_from([U.IntFlg.A, U.IntFlg.A | U.IntFlg.B, U.IntFlg(0), U.IntFlg(8), U.IntFlg(1 << 70), U.IntFlg(-4), re.I | re.M]), st.sampled_from(list(U.Colour)),
                     st.sampled_from([http.HTTPStatus.OK, signal.SIGINT, re.I]),
                     st.builds(U.Point, st.integers(-3, 3), gen.texts(4)), st.builds(U.SubPoint, gen.texts(4), st.integers(-3, 3)), st.builds(U.One, st.integers()), st.just(U.Empty()),
                     st.lists(gen.one_of(st.integers(-4, 4), gen.texts(4)), max_size=3).map(U.MyTuple))


@gen.cached
def containers(c):
    lists = gen.one_of(st.lists(c, max_size=4), gen.number_lists().map(list))
    h = gen.one_of(gen.hashables(), hashed())
    d = gen.one_of(gen.dicts(c, max_size=4), st.dictionaries(hashed(), c, max_size=3))
    return gen.one_of(st.builds(lambda c, l: c(l), st.sampled_from(oddlib.LISTS), lists), st.builds(lambda c, v: c(v), st.sampled_from(oddlib.DICTS), d), lists.map(U.MyList), lists.map(U.SubList), lists.map(U.MyTuple), st.builds(U.Point, c, c), st.builds(U.SubPoint, c, c), st.builds(U.One, c), d.map(U.MyDict), d.map(U.SubDict), d.map(U.MyOD),
                     d.map(collections.OrderedDict), st.builds(lambda f, v: collections.defaultdict(f, v), st.sampled_from([None, list, int, dict, U.func]), d),
                     st.dictionaries(gen.hashables(), st.integers(-5, 9), max_size=4).map(collections.Counter),
                     st.lists(h, max_size=4).map(uniq).map(U.MySet), st.lists(h, max_size=4).map(uniq))


def uniq(items):
    """a set of items of which no two are equal across classes"""
    out = set()
    for i in items:
        if i not in out and i == i:
            out.add(i)
    return out


@gen.cached
def trees(max_leaves=8):
    leaf = gen.one_of(hashed(), hashed(), hashed(), gen.scalars(False), gen.number_lists(False), st.lists(gen.one_of(st.integers(-5, 5), st.integers(-5, 5).map(U.MyInt), gen.floats(False).map(U.MyFloat)), max_size=5))
    return st.recursive(leaf, lambda c: gen.one_of(containers(c), containers(c), st.lists(c, max_size=5), st.lists(c, max_size=5).map(tuple), gen.dicts(c, max_size=4),
                                                  st.dictionaries(hashed(), c, max_size=3)), max_leaves=max_leaves)


def derived(x):
    """number of instances of derived classes, number of items"""
    t = type(x)
    n = int(t.__module__ not in ('builtins', 'numpy'))
    m = 1
    subs = []
    if isinstance(x, dict):
        subs = list(x.keys()) + list(x.values())
    elif isinstance(x, (list, tuple, set, frozenset)):
        subs = list(x)
    for i in subs:
        a, b = derived(i)
        n, m = n + a, m + b
    return n, m


@gen.cached
@st.composite
def cases(draw):
    return {'obj': draw(gen.one_of(trees(), st.lists(trees(4), min_size=2, max_size=3), st.dictionaries(hashed(), trees(4), min_size=1, max_size=2))), 'compress': draw(ngen.compressions())}


def check(case, ctx):
    x = case['obj']
    n, m = derived(x)
    ctx.nontrivial(n and m > 1)
    fn = ctx.path()
    hickle.dump(x, fn, mode='w', **case['compress'])
    # a process which has not come across these combinations of flags yet
    for c in (U.IntFlg, re.RegexFlag):
        named = set(map(id, c.__members__.values()))
        for v, m in list(c._value2member_map_.items()):
            if id(m) not in named:
                del c._value2member_map_[v]
    try:
        y = hickle.load(fn)
    except Exception as e:
        raise Violation('load raised %s' % short(e, 800)) from e
    expect(x, y)


# ---- the same content in base and derived classes, many times -------------------------------------------------------
@gen.cached
@st.composite
def neighbours(draw):
    v = draw(gen.one_of(st.lists(gen.scalars(False), max_size=3), gen.number_lists(False).map(list)))
    return {'value': v, 'order': draw(st.permutations(range(6))), 'nest': draw(st.sampled_from(['list', 'dict', 'keys'])), 'text': draw(gen.texts()), 'number': draw(gen.ints())}


def check_neighbours(case, ctx):
    v = case['value']
    ctx.nontrivial(True)
    variants = [[list(v), U.MyList(v), U.SubList(v)], [tuple(v), U.MyTuple(v)], [case['text'], U.MyStr(case['text'])], [case['number'], U.MyInt(case['number']), 'x'],
                [{'a': v}, U.MyDict(a=v), U.SubDict(a=v), collections.OrderedDict(a=v)], [case['text'].encode(), U.MyBytes(case['text'].encode())]]
    flat = [i for o in case['order'] for i in variants[o]]
    if case['nest'] == 'list':
        x = flat
    elif case['nest'] == 'dict':
        x = {'k%d' % i: f for i, f in enumerate(flat)}
    else:
        x = {(n, k): 'v' for n, k in enumerate(variants[2] + variants[3] + variants[5])}
    fn = ctx.path()
    hickle.dump(x, fn, mode='w')
    expect(x, hickle.load(fn), what='base and derived classes side by side')


TESTS = [Test('derived', cases, check, 13000, 200000), Test('neighbours', neighbours, check_neighbours, 2400, 30000)]
