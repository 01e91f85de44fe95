import os
import sys
import warnings

import hickle
from hypothesis import strategies as st

from hv import classgen as cg
from hv import eq, gen
from hv.core import Test, Violation, short
from hv.io import expect
from hickle import lookup

TECHNIQUE = 'property-based testing (hypothesis): generated class hierarchies, loader registrations, options and object nestings; the loader functions record who calls them and are compared with a reference model of the resolution'
LEVEL = 'exploration'
RULE = 'at least two classes and at least one registered loader, instances of at least two classes in the object (tables: at least one refused registration)'
ASSUMPTIONS = ['a loader found beside the package of a class exists before the first use of that class; loaders replacing others use an identifier of their own', 'the loaders themselves are deterministic and do not fail']


@gen.cached
@st.composite
def cases(draw):
    spec = draw(cg.hierarchies())
    n = len(spec)
    regs = []
    for i in range(n):
        for opt in (None, 'custom'):
            if draw(st.integers(0, 9)) < (5 if opt is None else 4):
                # several loaders may use one identifier for a class and its optional variant
                regs.append((i, opt, draw(st.sampled_from(['group', 'dataset'])), draw(st.booleans()), draw(st.booleans())))
    inst = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=5))
    shape = draw(st.recursive(gen.one_of(st.integers(0, len(inst) - 1).map(lambda i: ('I', i)), st.sampled_from([{'n': 1}, 'x', None, {'f': 2.5}, b'b', ('q', None)]).map(lambda v: ('V', v))),
                              lambda c: gen.one_of(st.tuples(st.just('L'), st.lists(c, max_size=4)), st.tuples(st.just('T'), st.lists(c, max_size=3)),
                                                  st.tuples(st.just('D'), st.lists(c, max_size=3))), max_leaves=8))
    shape = ('L', [('I', i) for i in range(len(inst))] + [shape])
    on = draw(st.lists(st.sampled_from([None, {}, {'custom': True}, {'custom': True}, {'custom': False}, {'custom': 1}]), min_size=1, max_size=3))
    # loaders which are registered, or replace the one registered before, between two dumps
    late = draw(st.lists(st.tuples(st.integers(1, 2), st.integers(0, n - 1), st.sampled_from([None, None, 'custom']), st.sampled_from(['group', 'dataset'])), max_size=2)) if len(on) > 1 and draw(st.booleans()) else []
    return {'spec': spec, 'regs': regs, 'late': late, 'inst': inst, 'shape': shape, 'on': on, 'over': draw(st.booleans()), 'compress': draw(st.sampled_from([None, 'gzip']))}


def make(shape, pool):
    k, v = shape
    if k == 'I':
        return pool[v]
    if k == 'V':
        return v
    items = [make(s, pool) for s in v]
    return items if k == 'L' else tuple(items) if k == 'T' else {'k%d' % i: x for i, x in enumerate(items)}


def leaves(shape):
    k, v = shape
    if k == 'I':
        yield v
    elif k != 'V':
        for s in v:
            yield from leaves(s)


def resolve(c, regs, classes, option):
    """reference model: the nearest class with a loader, the optional one first"""
    for m in type.mro(c):
        for opt in (('custom', None) if option else (None,)):
            if (m, opt) in regs:
                return regs[m, opt]
        if m in (list, dict, str, tuple, set):
            return 'builtin'
    return 'pickle'


def compare(shape, x, y, pool, seen, how, path=''):
    k, v = shape
    if k == 'I':
        c = type(x)
        if type(y) is not c:
            raise Violation('%s: %s loaded as %s' % (path, c.__name__, type(y).__name__))
        h = how[c]
        if h == 'pickle':
            if (y.v, y.code, getattr(y, 'how', None)) != (x.v, x.code, None):
                raise Violation('%s: state lost %r %r' % (path, x.__dict__, y.__dict__))
        elif h == 'builtin':
            eq.same(cg.ROOTS[c.root](x), cg.ROOTS[c.root](y), path)
        else:
            if y.how != h.key:
                raise Violation('%s: %s loaded by %s instead of %s' % (path, c.__name__, y.how, h.key))
            if h.form == 'group':
                eq.same(x.v, y.v, path + '.v')
            elif y.code != x.code:
                raise Violation('%s: code %r %r' % (path, x.code, y.code))
        if not isinstance(h, str):
            seen.setdefault(v, []).append(y)
    elif k == 'V':
        eq.same(v, y, path)
    else:
        if type(y) is not type(x) or len(y) != len(x):
            raise Violation('%s: %s instead of %s' % (path, short(y), short(x)))
        for i, s in enumerate(v):
            j = 'k%d' % i if k == 'D' else i
            compare(s, x[j], y[j], pool, seen, how, '%s[%r]' % (path, j))


def check(case, ctx):
    log = []
    classes = cg.build(case['spec'])
    regs = {}
    with cg.loader_tables():
        for i, opt, form, memo, same in case['regs']:
            key = 'k%d%s' % (i, opt or '')
            base = ('hv_k%d' % i if same else 'hv_' + key).encode()
            ld = cg.Loader(key, form, memo, opt, base, log)
            if same and (classes[i], None) in regs and opt:
                # variant with the same identifier replaces load function or container when switched on
                ld.form = regs[classes[i], None].form
                ld.base = regs[classes[i], None].base
            ld.register(classes[i])
            regs[classes[i], opt] = ld
        pool = []
        for n, i in enumerate(case['inst']):
            c = classes[i]
            o = c(*cg.EMPTY[c.root])
            o.v, o.code = ['payload', n, {'a': (n, None)}], 100 + n
            pool.append(o)
        x = make(case['shape'], pool)
        used = list(leaves(case['shape']))
        ctx.nontrivial(len(classes) > 1 and bool(regs) and len({type(pool[i]) for i in used}) > 1)
        fn = ctx.path()
        written = {}
        kw = {'compression': case['compress']} if case['compress'] else {}
        for n, on in enumerate(case['on']):
            path = '/p0' if case['over'] else '/p%d' % n
            for m, (when, i, opt, form) in enumerate(case['late']):
                if when == n:
                    regs[classes[i], opt] = cg.Loader('late%d' % m, form, True, opt, b'hv_late%d' % m, log)
                    regs[classes[i], opt].register(classes[i])
            option = bool(on and on.get('custom'))
            how = {c: resolve(c, regs, classes, option) for c in classes}
            del log[:]
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                hickle.dump(x, fn, mode='w' if n == 0 or case['over'] else 'r+', path=path, **({} if on is None else {'options': on}), **kw)
            expected = []
            done = set()
            for i in used:
                h = how[type(pool[i])]
                if isinstance(h, str) or (h.memo and i in done):
                    continue
                done.add(i)
                expected.append(('dump', h.key, type(pool[i])))
            # sub items of a group are dumped after it, order among siblings is the one of the container
            if sorted(map(str, log)) != sorted(map(str, expected)):
                raise Violation('dump with options %r used %s\nexpected %s' % (on, log, expected))
            pickled = {i for i in used if how[type(pool[i])] == 'pickle'}
            nw = sum(1 for i in w if issubclass(i.category, lookup.SerializedWarning))
            if (nw > 0) != (len(pickled) > 0):
                raise Violation('%d serialization warnings for %d pickled objects' % (nw, len(pickled)))
            written[path] = (how, expected)
        for path, (how, expected) in written.items():
            del log[:]
            try:
                y = hickle.load(fn, path=path)
            except Exception as e:
                raise Violation('load of %s raised %s' % (path, short(e, 800))) from e
            if sorted(map(str, log)) != sorted(map(str, [('load',) + e[1:] for e in expected])):
                raise Violation('load of %s used %s\nexpected the loaders of %s' % (path, log, expected))
            seen = {}
            try:
                compare(case['shape'], x, y, pool, seen, how)
            except eq.Diff as d:
                raise Violation(str(d)) from d
            for i, objs in seen.items():
                h = how[type(pool[i])]
                if h.memo and len({id(o) for o in objs}) != 1:
                    raise Violation('instance of %s with memoising loader loaded as several objects' % type(pool[i]).__name__)
                if not h.memo and len({id(o) for o in objs}) != len(objs):
                    raise Violation('instances of %s with loader which does not memoise are one object' % type(pool[i]).__name__)


# ---- loaders found beside the package of the class -----------------------------------------------------------
@gen.cached
@st.composite
def packages(draw):
    return {'package': draw(st.booleans()), 'option': draw(st.sampled_from([None, None, 'custom'])), 'on': draw(st.booleans()), 'loader': draw(st.booleans()),
            'derived': draw(st.booleans()), 'exclude': draw(st.booleans()), 'form': draw(st.sampled_from(['group', 'dataset'])), 'values': draw(st.lists(st.integers(-9, 9), min_size=1, max_size=3)),
            'sub': draw(st.booleans()), 'fresh': draw(st.booleans())}


SOURCE = '''
class Base(object):
    def __init__(self, v):
        self.v = v
class Derived(Base):
    pass
class Junk(Base):
    pass
'''
LOADER = '''
import numpy as np
from hickle.helpers import PyContainer
from %(mod)s import Base, Junk
calls = []
class C(PyContainer):
    __slots__ = ()
    def __init__(self, a, b, o):
        super().__init__(a, b, o, _content={})
    def append(self, name, item, h5_attrs):
        self._content[name] = item
    def convert(self):
        calls.append('load')
        o = self.object_type(self._content['v'])
        o.how = 'loader'
        return o
def dump(obj, h_group, name, **kwargs):
    calls.append('dump')
    if %(group)r:
        return h_group.create_group(name), (('v', obj.v, {}, kwargs),)
    return h_group.create_dataset(name, data=np.array([obj.v], dtype='i8')), ()
def load(h_node, base_type, cls):
    calls.append('load')
    o = cls(int(h_node[0]))
    o.how = 'loader'
    return o
class_register = [
    [Base, b'%(name)s_base', dump, %(load)s, %(cont)s, True, %(option)r],
    [Junk, b'%(name)s_junk', dump, load if not %(group)r else None, C if %(group)r else None, True],
]
exclude_register = %(exclude)s
'''
COUNT = [0]


def discovery(case, ctx):
    COUNT[0] += 1
    name = 'hvpkg%d_%d' % (os.getpid(), COUNT[0])
    top = os.path.join(ctx.scratch, 'd%d' % COUNT[0])
    os.makedirs(top)
    group = case['form'] == 'group'
    mod = name
    if case['package']:
        home = os.path.join(top, name)
        os.makedirs(home)
        mod = name + ('.inner' if case['sub'] else '')
        with open(os.path.join(home, '__init__.py'), 'w') as f:
            f.write('' if case['sub'] else SOURCE)
        if case['sub']:
            with open(os.path.join(home, 'inner.py'), 'w') as f:
                f.write(SOURCE)
    else:
        home = top
        with open(os.path.join(top, name + '.py'), 'w') as f:
            f.write(SOURCE)
    if case['loader']:
        os.makedirs(os.path.join(home, 'hickle_loaders'))
        with open(os.path.join(home, 'hickle_loaders', 'load_%s.py' % name), 'w') as f:
            f.write(LOADER % dict(mod=mod, name=name, group=group, load='None' if group else 'load', cont='C' if group else 'None', option=case['option'],
                                  exclude="[b'%s_junk']" % name if case['exclude'] else '[]'))
    import importlib
    sys.path.insert(0, top)
    loader_name = 'hickle.loaders.load_' + name
    try:
        with cg.loader_tables():
            importlib.invalidate_caches()
            m = importlib.import_module(mod)
            cls = m.Derived if case['derived'] else m.Base
            objs = [cls(v) for v in case['values']]
            x = {'objs': objs, 'n': 1, 'junk': [m.Junk(5)], 'again': objs[0]}
            on = case['option'] is None or case['on']
            used = case['loader'] and on
            ctx.nontrivial(True)
            fn = ctx.path()
            hickle.dump(x, fn, mode='w', options={'custom': True} if case['on'] else {})
            if case['fresh']:
                # a new process has not imported the loader yet
                sys.modules.pop(loader_name, None)
                for t in (cg.LM.__py_types__, cg.LM.__hkl_functions__, cg.LM.__hkl_container__):
                    for o in t.values():
                        for k in [k for k in o if name in str(k)]:
                            del o[k]
                cg.LM.__loaded_loaders__.discard(loader_name)
            y = hickle.load(fn)
            if type(y) is not dict or list(y) != list(x) or len(y['objs']) != len(objs):
                raise Violation('loaded %s' % short(y))
            for o, p in zip(objs, y['objs']):
                if type(p) is not cls or p.v != o.v:
                    raise Violation('%s loaded as %s' % (short(vars(o)), short(p)))
                if (getattr(p, 'how', None) == 'loader') != used:
                    raise Violation('loader %s' % ('not used' if used else 'used'))
            if y['again'] is not y['objs'][0]:
                raise Violation('sharing lost')
            if not (case['loader'] and case['exclude']):
                if len(y['junk']) != 1 or type(y['junk'][0]) is not m.Junk or y['junk'][0].v != 5:
                    raise Violation('junk %s' % short(y['junk']))
            elif any(isinstance(j, m.Junk) for j in y['junk']):
                raise Violation('excluded data loaded: %s' % short(y['junk']))
    finally:
        sys.path.remove(top)
        for k in [k for k in sys.modules if k.split('.')[0] == name or k == loader_name]:
            del sys.modules[k]


# ---- registration rules -------------------------------------------------------------------------------------
class Victim(object):
    pass


def _fn(*a, **k):
    raise AssertionError('never called')


@gen.cached
@st.composite
def tables(draw):
    return {'ops': draw(st.lists(st.tuples(st.sampled_from(['register', 'exclude']), st.sampled_from(['object', 'type', 'function', 'victim']),
                                           st.sampled_from([b'pickle', b'!node-reference!', b'!recover!', b'dict_item', b'hv_x', b'list', b'!hv_new!']),
                                           st.sampled_from([None, 'custom', 'hickle-4.x', 'bogus', '']), st.booleans()), min_size=1, max_size=4)),
            'value': draw(gen.trees())}


def registration(case, ctx):
    refused = 0
    once = set()
    with cg.loader_tables():
        for op, what, base, opt, memo in case['ops']:
            before = dump_tables()
            core = base in (b'pickle', b'!node-reference!', b'!recover!')
            try:
                if op == 'register':
                    cls = {'object': object, 'type': type, 'function': _fn, 'victim': Victim}[what]
                    bad = what != 'victim' or core or opt in ('bogus', '') or base in once
                    if base in (b'list', b'dict_item') and opt is None:
                        continue      # replaces a built in loader on purpose
                    lookup.LoaderManager.register_class(cls, base, _fn, _fn, None, memo, opt)
                    if opt is None and base == b'!hv_new!':
                        once.add(base)
                else:
                    bad = base in (b'pickle', b'!node-reference!', b'!recover!', b'dict_item', b'!hv_new!') or opt in ('bogus', '')
                    if base == b'list' and opt is None:
                        continue
                    lookup.LoaderManager.register_class_exclude(base, opt)
            except (TypeError, ValueError, lookup.LookupError) as e:
                refused += 1
                if not bad:
                    raise Violation('%r refused: %r' % ((op, what, base, opt), e)) from e
                if dump_tables() != before:
                    raise Violation('%r refused but changed the tables' % ((op, what, base, opt),))
            else:
                if bad:
                    raise Violation('%r accepted' % ((op, what, base, opt),))
        ctx.nontrivial(refused > 0)
        fn = ctx.path()
        x = case['value']
        hickle.dump(x, fn, mode='w')
        expect(x, hickle.load(fn), what='with changed registrations')
    # unknown options are refused and leave no file with half of it
    try:
        hickle.dump(x, fn, mode='w', options={'bogus': True})
    except Exception:
        pass
    else:
        raise Violation('unknown option accepted')


def dump_tables():
    return [{k: dict(v) for k, v in t.items()} for t in (cg.LM.__py_types__, cg.LM.__hkl_functions__, cg.LM.__hkl_container__)]


TESTS = [Test('resolution', cases, check, 6000, 100000), Test('discovery', packages, discovery, 600, 6000), Test('registration', tables, registration, 800, 20000)]
