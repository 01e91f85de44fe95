"""Generated class hierarchies with generated loaders, registered with hickle for
the duration of one case."""
import contextlib

import numpy as np
from hickle import lookup
from hickle.helpers import PyContainer
from hypothesis import strategies as st

from . import dynlib

LM = lookup.LoaderManager
ROOTS = {'object': object, 'list': list, 'dict': dict, 'str': str, 'tuple': tuple, 'set': set}
EMPTY = {'object': (), 'list': ([7, 8],), 'dict': ({'k': 1},), 'str': ('text',), 'tuple': ((1, 'x'),), 'set': ({1, 2},)}


ITEM = {'item_index': 7, 'key_idx': 3}         # of items only, those of the node itself belong to the container it is in
EXTRA = {'note': 'ü x', 'vec': np.arange(3.), 'flag': True, 'name': np.bytes_(b'ab')}


def marked(attrs, key, item=False):
    """the attributes a loader attached to a node"""
    try:
        return attrs['mark'] == key and all(np.array_equal(attrs[k], v) for k, v in (dict(EXTRA, **ITEM) if item else EXTRA).items())
    except KeyError:
        return False


class Loader:
    """one registered pair of dump and load functions; remembers who called it"""

    def __init__(self, key, form, memo, option, base, log):
        self.key, self.form, self.memo, self.option, self.base, self.log = key, form, memo, option, base, log
        ld = self

        class Container(PyContainer):
            __slots__ = ()

            def __init__(self, h5_attrs, base_type, object_type):
                super().__init__(h5_attrs, base_type, object_type, _content={})

            def append(self, name, item, h5_attrs):
                self._content[name] = (item, dict(h5_attrs.items()))

            def convert(self):
                ld.log.append(('load', ld.key, self.object_type))
                item, mark = self._content['payload']
                if not marked(mark, ld.key, True) or not marked(self._h5_attrs, ld.key):
                    raise AssertionError('attributes lost: %r %r' % (mark, dict(self._h5_attrs.items())))
                return ld.make(self.object_type, item)
        self.container = Container

    def make(self, cls, payload):
        o = cls.__new__(cls)
        o.v = payload
        o.how = self.key
        return o

    def dump(self, obj, h_group, name, **kwargs):
        self.log.append(('dump', self.key, type(obj)))
        if self.form == 'group':
            g = h_group.create_group(name)
            self.mark(g)
            return g, (('payload', obj.v, dict(EXTRA, mark=self.key, **ITEM), kwargs),)
        d = h_group.create_dataset(name, data=np.array(obj.code, dtype='i8'))
        self.mark(d)
        return d, ()

    def mark(self, node):
        for k, v in dict(EXTRA, mark=self.key).items():
            node.attrs[k] = v

    def load(self, h_node, base_type, py_obj_type):
        self.log.append(('load', self.key, py_obj_type))
        if not marked(h_node.attrs, self.key):
            raise AssertionError('foreign node %r' % dict(h_node.attrs.items()))
        o = self.make(py_obj_type, None)
        o.code = int(h_node[()])
        return o

    def unregister(self, cls):
        LM.__py_types__[self.option].pop(cls)
        for t in (LM.__hkl_functions__, LM.__hkl_container__):
            t[self.option].pop(self.base, None)
            t[self.option].pop(self.base.decode(), None)

    def register(self, cls):
        LM.register_class(cls, self.base, self.dump, self.load if self.form == 'dataset' else None,
                          self.container if self.form == 'group' else None, self.memo, self.option)


@contextlib.contextmanager
def loader_tables():
    """restores the loader tables of hickle afterwards"""
    tables = [LM.__py_types__, LM.__hkl_functions__, LM.__hkl_container__]
    saved = [{k: dict(v) for k, v in t.items()} for t in tables]
    loaded = set(LM.__loaded_loaders__)
    try:
        yield
    finally:
        for t, s in zip(tables, saved):
            for k, v in s.items():
                t[k].clear()
                t[k].update(v)
        LM.__loaded_loaders__.clear()
        LM.__loaded_loaders__.update(loaded)


def build(spec, prefix='G', modules=None):
    """spec: list of (root, [parents]); returns the classes, put into dynlib"""
    out = []
    for i, (root, parents) in enumerate(spec):
        mod = modules[i] if modules else dynlib
        bases = tuple(out[p] for p in parents) or (ROOTS[root],)
        c = type('%s%d' % (prefix, i), bases, {'__module__': mod.__name__, 'v': None, 'how': None, 'code': 0,
                                               '__qualname__': '%s%d' % (prefix, i)})
        c.root = next(n for n, r in ROOTS.items() if r is not object and issubclass(c, r)) if issubclass(
            c, (list, dict, str, tuple, set)) else 'object'
        setattr(mod, c.__name__, c)
        out.append(c)
    return out


@st.composite
def hierarchies(draw, max_classes=6):
    n = draw(st.integers(1, max_classes))
    spec, roots, mros = [], [], []
    for i in range(n):
        parents = draw(st.lists(st.integers(0, i - 1), max_size=3, unique=True)) if i else []
        root = draw(st.sampled_from(['object', 'object', 'list', 'dict', 'str', 'tuple', 'set']))
        if parents:
            kinds = {roots[p] for p in parents}
            root = (kinds - {'object'} or {'object'}).pop()
            if len(kinds - {'object'}) > 1 or not ok(spec + [(root, parents)]):
                parents = parents[:1]
                root = roots[parents[0]]
        roots.append(root)
        spec.append((root, parents))
    return spec


def ok(spec):
    try:
        build(spec, 'Try')
        return True
    except TypeError:
        return False
