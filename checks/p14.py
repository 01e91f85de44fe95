import contextlib
import pickle
import sys
import warnings

import hickle
import numpy as np
from hickle import lookup
from hypothesis import strategies as st

from hv import classgen as cg
from hv import dynlib, eq, gen, gonelib
from hv import targets as tg
from hv.core import Test, Violation, short

TECHNIQUE = 'property-based testing (hypothesis): generated class hierarchies and nestings are dumped, generated subsets of classes, modules and loaders made unavailable; a reference model says what has to be recovered and what has to be loaded as is (fault injection and round trip)'
LEVEL = 'exploration'
RULE = 'at least one instance in the object can not be restored'
ASSUMPTIONS = ['instances do not stand inside numpy object arrays or pickled objects', 'loaders are deterministic']

CONTENT = {'object': [()], 'list': [([7, 8],), ([1, 'x'],), ([],)], 'dict': [({'k': 1},), ({2: 'a', 'b': None},), ({},)], 'str': [('text',), ('',), ('\u00e9',)],
           'tuple': [((1, 'x'),), ((1, 2),), ((),)], 'set': [({1, 2},), ({'a', 1},), (set(),)]}


@gen.cached
@st.composite
def cases(draw):
    spec = draw(cg.hierarchies(5))
    n = len(spec)
    regs = [(i, draw(st.sampled_from(['group', 'dataset']))) for i in range(n) if draw(st.integers(0, 9)) < 5]
    gone = [draw(st.booleans()) for i in range(n)]
    missing = [draw(st.sampled_from(['no', 'class', 'loader'])) for i in range(n)]
    inst = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, 2)), min_size=1, max_size=5))
    one = st.integers(0, len(inst) - 1).map(lambda i: ('I', i))
    shape = draw(st.recursive(gen.one_of(one, one, values().map(lambda v: ('V', v))),
                              lambda c: gen.one_of(st.tuples(st.just('L'), st.lists(c, max_size=4)), st.tuples(st.just('T'), st.lists(c, max_size=3)),
                                                  st.tuples(st.just('D'), st.lists(c, max_size=3)), st.tuples(st.just('K'), st.lists(st.tuples(one, c).map(list), max_size=2)),
                                                  st.tuples(st.just('S'), st.lists(one, max_size=3))), max_leaves=8))
    return {'spec': spec, 'regs': regs, 'gone': gone, 'module': draw(st.sampled_from([False, 'gone', 'broken'])), 'missing': missing, 'inst': inst,
            'shape': draw(st.sampled_from([shape, ('L', [shape, ('I', 0), ('V', ['tail', None])])])),
            'times': draw(st.sampled_from([1, 1, 2])), 'again': draw(st.booleans()), 'kind': draw(st.sampled_from(['str', 'h5file', 'h5file_rw', 'h5file_rw'])), 'path': draw(st.sampled_from(['/', '/a'])), 'compress': draw(st.sampled_from([None, 'gzip']))}


@gen.cached
def values():
    # numbers which stand alone in a list are stored together, keep them inside a dict
    return gen.one_of(gen.trees().map(lambda v: {'v': v}), st.sampled_from(['x', None, b'b', {}, [], ()]))


def hashable(c):
    # generated loaders do not restore the content of built in types, equal instances would collapse
    return c.root == 'object' or (c.root in ('str', 'tuple') and not any('custom' in m.__dict__ for m in c.__mro__))


def make(shape, pool):
    k, v = shape
    if k == 'I':
        return pool[v]
    if k == 'V':
        return v
    if k == 'K':
        return {pool[i[1]]: make(s, pool) for i, s in v if hashable(type(pool[i[1]]))}
    if k == 'S':
        return {pool[i] for _, i in v if hashable(type(pool[i]))}
    items = [make(s, pool) for s in v]
    return items if k == 'L' else tuple(items) if k == 'T' else {'k%d' % i: x for i, x in enumerate(items)}


class Model:
    def __init__(self, regs, missing, gone):
        self.regs, self.missing, self.gone = regs, missing, gone
        self.lost = []
        self.pairs = {}

    def how(self, c):
        for m in type.mro(c):
            if m in self.regs:
                return self.regs[m]
            if m in cg.ROOTS.values() and m is not object:
                return 'builtin'
        return 'pickle'

    def unavailable(self, c):
        h = self.how(c)
        return c in self.gone or (not isinstance(h, str) and h in self.missing)

    def compare(self, x, y, path=''):
        c = type(x)
        if c.__module__ in (dynlib.__name__, gonelib.__name__):
            self.instance(c, x, y, path)
        elif c is dict and x and not all(type(k) is str for k in x):
            # keys may be recovered, entries keep their order
            if type(y) is not dict or len(x) != len(y):
                raise Violation('%s: dict with %d entries became %s' % (path, len(x), short(y)))
            for n, ((k, v), (k2, v2)) in enumerate(zip(x.items(), y.items())):
                self.compare(k, k2, '%s.key%d' % (path, n))
                self.compare(v, v2, '%s.value%d' % (path, n))
        elif c is dict and list(x) and str(list(x)[0]).startswith('k0'):
            if type(y) is not dict or list(x) != list(y):
                raise Violation('%s: keys %s %s' % (path, list(x), short(y)))
            for k in x:
                self.compare(x[k], y[k], '%s[%r]' % (path, k))
        elif c in (list, tuple) and any(self.holds(i) for i in x):
            if type(y) is not c or len(x) != len(y):
                raise Violation('%s: %s with %d items became %s' % (path, c.__name__, len(x), short(y)))
            for i, (a, b) in enumerate(zip(x, y)):
                self.compare(a, b, '%s[%d]' % (path, i))
        elif c is set and any(self.holds(i) for i in x):
            if type(y) is not set or len(x) != len(y):
                raise Violation('%s: set of %d items became %s' % (path, len(x), short(y)))
            rest = list(y)
            for a in x:
                for b in rest:
                    try:
                        probe = Model(self.regs, self.missing, self.gone)
                        probe.compare(a, b, path)
                    except (Violation, eq.Diff, AttributeError, TypeError):
                        continue
                    rest.pop([i is b for i in rest].index(True))
                    self.compare(a, b, path + '{}')
                    break
                else:
                    raise Violation('%s: no item for %r in %s' % (path, a, short(y)))
        else:
            eq.same(x, y, path)

    def holds(self, x):
        if type(x).__module__ in (dynlib.__name__, gonelib.__name__):
            return True
        if type(x) in (list, tuple, set):
            return any(self.holds(i) for i in x)
        if type(x) is dict:
            return any(self.holds(i) for i in x) or any(self.holds(i) for i in x.values())
        return False

    def instance(self, c, x, y, path):
        self.pairs.setdefault(id(x), []).append((x, y))
        h = self.how(c)
        if not self.unavailable(c):
            if type(y) is not c:
                raise Violation('%s: available %s loaded as %s' % (path, c.__name__, type(y).__name__))
            if h == 'builtin':
                eq.same(cg.ROOTS[c.root](x), cg.ROOTS[c.root](y), path)
            elif h == 'pickle' or h.form == 'group':
                eq.same(x.v, y.v, path)
            elif y.code != x.code:
                raise Violation('%s: %r %r' % (path, x.code, y.code))
            return
        self.lost.append((h, x, y))
        if not isinstance(y, lookup.AttemptRecoverCustom):
            raise Violation('%s: %s should be in recovered form, is %s' % (path, c.__name__, short(y)))
        if h == 'pickle':
            if not isinstance(y, lookup.RecoveredDataset) or x.v[0].encode() not in y.tobytes():
                raise Violation('%s: pickled data recovered as %s' % (path, type(y)))
            return
        base = y.attrs.get('base_type')
        base = base.decode() if isinstance(base, bytes) else base
        want = c.root if h == 'builtin' else h.base.decode()
        if base != want:
            raise Violation('%s: recovered base type %r instead of %r' % (path, base, want))
        if h == 'builtin':
            self.raw(cg.ROOTS[c.root](x), y, path)
        elif h.form == 'dataset':
            if not isinstance(y, lookup.RecoveredDataset) or int(y[()]) != x.code or not cg.marked(y.attrs, h.key) or y.dtype != np.dtype('i8'):
                raise Violation('%s: raw data %r %r of %r' % (path, y, y.attrs, x.code))
        else:
            if not isinstance(y, lookup.RecoveredGroup) or list(y) != ['payload']:
                raise Violation('%s: %s' % (path, short(y)))
            item, attrs = y['payload']
            if not cg.marked(attrs, h.key, True) or not cg.marked(y.attrs, h.key):
                raise Violation('%s: attributes %r %r' % (path, attrs, y.attrs))
            eq.same(x.v, item, path + '.payload')

    def raw(self, x, y, path):
        if isinstance(y, lookup.RecoveredDataset):
            if isinstance(x, str):
                ok = y.size == 0 or y.dtype.kind == 'O' or y.tobytes().decode('utf8') == x or (x == '' and y.tobytes() in (b'', b'\0'))
            elif not x:
                ok = True
            else:
                ok = y.tolist() == list(x) if isinstance(x, (list, tuple)) else set(y.tolist()) == set(x)
        else:
            def item(v):
                return v[0] if type(v) is tuple else v
            vals = [item(v) for v in y.values()]
            ok = len(vals) == len(x)
            if isinstance(x, (list, tuple)):
                for i, a in enumerate(x):
                    eq.same(a, vals[i], '%s.raw%d' % (path, i))
            elif isinstance(x, set):
                ok = ok and set(vals) == x
        if not ok:
            raise Violation('%s: raw data of %r are %s' % (path, x, short(y)))


class Broken:
    """a module which is there but can not be imported"""
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name == gonelib.__name__:
            raise ImportError('something %s needs is too old' % name)


@contextlib.contextmanager
def away(classes, whole):
    saved = [(c, sys.modules[c.__module__]) for c in classes]
    for c, m in saved:
        delattr(m, c.__name__)
    if whole == 'broken':
        del sys.modules[gonelib.__name__]
        sys.meta_path.insert(0, Broken)
    elif whole:
        sys.modules[gonelib.__name__] = None
    try:
        yield
    finally:
        if whole == 'broken':
            sys.meta_path.remove(Broken)
        sys.modules[gonelib.__name__] = gonelib
        for c, m in saved:
            setattr(m, c.__name__, c)


def check(case, ctx):
    classes = cg.build(case['spec'], modules=[gonelib if g else dynlib for g in case['gone']])
    regs = {}
    with cg.loader_tables():
        for i, form in case['regs']:
            ld = cg.Loader('k%d' % i, form, True, None, b'hv_k%d' % i, [])
            ld.register(classes[i])
            regs[classes[i]] = ld
            classes[i].custom = True
        pool = []
        for n, (i, j) in enumerate(case['inst']):
            c = classes[i]
            o = c(*CONTENT[c.root][j % len(CONTENT[c.root])])
            o.v, o.code = ['payload<%d>' % n, n, {'a': (n, None)}], 100 + n
            pool.append(o)
        x = make(case['shape'], pool)
        fn = ctx.path()
        hickle.dump(x, fn, mode='w', path=case['path'], **({'compression': 'gzip'} if case['compress'] else {}))
        raw = open(fn, 'rb').read()
        gone = {c for c, m in zip(classes, case['missing']) if m == 'class'}
        if case['module']:
            gone |= {c for c, g in zip(classes, case['gone']) if g}
        missing = [(regs[c], c) for c, m in zip(classes, case['missing']) if m == 'loader' and c in regs]
        model = Model(regs, {ld for ld, _ in missing}, gone)
        full = Model(regs, set(), set())
        with tg.load_target(case['kind'], fn) as t:
            with away(gone, case['module']):
                for ld, c in missing:
                    ld.unregister(c)
                try:
                    for _ in range(case['times']):
                        with warnings.catch_warnings(record=True) as w:
                            warnings.simplefilter('always')
                            try:
                                y = hickle.load(t.obj, path=case['path'], **t.kw)
                            except Exception as e:
                                raise Violation('load without some classes raised %s' % short(e, 800)) from e
                finally:
                    for ld, c in missing:
                        ld.register(c)
            if case['again']:
                try:
                    full.compare(x, hickle.load(t.obj, path=case['path'], **t.kw))
                except eq.Diff as d:
                    raise Violation('with all classes, through the same handle: %s' % d) from d
        if open(fn, 'rb').read() != raw and case['kind'] != 'h5file_rw':
            raise Violation('file changed')
        try:
            model.compare(x, y)
        except eq.Diff as d:
            raise Violation(str(d)) from d
        for objs in model.pairs.values():
            if len({id(b) for _, b in objs}) > 1:
                raise Violation('shared instance of %s became several objects' % type(objs[0][0]).__name__)
        ctx.nontrivial(bool(model.lost))
        ctx.label('lost' if model.lost else 'complete')
        if (sum(issubclass(i.category, lookup.DataRecoveredWarning) for i in w) > 0) != bool(model.lost):
            raise Violation('%d objects recovered but warnings are %s' % (len(model.lost), [str(i.message) for i in w]))
        for h, a, b in model.lost:
            if h == 'pickle' and pickle.loads(b.tobytes()).v != a.v:
                raise Violation('recovered pickle string does not restore the object')
        # everything available again
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            z = hickle.load(fn, path=case['path'])
        full = Model(regs, set(), set())
        try:
            full.compare(x, z)
        except eq.Diff as d:
            raise Violation('with all classes: %s' % d) from d
        if any(issubclass(i.category, lookup.DataRecoveredWarning) for i in w):
            raise Violation('recovery warning with all classes available')


TESTS = [Test('recovery', cases, check, 9000, 150000)]
