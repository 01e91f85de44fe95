"""Objects which run code of the check while hickle dumps or loads them."""
import threading

import hickle
from hickle.helpers import PyContainer
from hickle.lookup import LoaderManager

_local = threading.local()


def stack():
    if not hasattr(_local, 'stack'):
        _local.stack = []
    return _local.stack


def fire():
    """runs the next action of the operation in progress in this thread"""
    s = stack()
    if s and s[-1].actions:
        s[-1].actions.pop(0)()


class Base:
    def __init__(self, i):
        self.i = i

    def __eq__(self, other):
        return type(self) is type(other) and self.i == other.i

    def __hash__(self):
        return hash(self.i)

    def __repr__(self):
        return '%s(%r)' % (type(self).__name__, self.i)


def rebuild(i):
    fire()
    return PHook(i)


class PHook(Base):
    """pickled"""
    def __reduce__(self):
        fire()
        return rebuild, (self.i,)


class DHook(Base):
    """dumped as dataset by a registered loader"""


class GHook(Base):
    """dumped as group by a registered loader"""


class OHook(Base):
    """like DHook with an optional loader"""
    def __reduce__(self):
        fire()
        return OHook, (self.i,)


def dump_d(py_obj, h_group, name, **kw):
    fire()
    d = h_group.create_dataset(name, data=py_obj.i)
    return d, ()


def load_d(h_node, base_type, py_obj_type):
    fire()
    return py_obj_type(int(h_node[()]))


def dump_g(py_obj, h_group, name, **kw):
    g = h_group.create_group(name)

    def items():
        yield 'first', [py_obj.i, 'x'], {}, kw
        fire()
        yield 'second', {'k': py_obj.i}, {}, kw
    return g, items()


class GContainer(PyContainer):
    def __init__(self, h5_attrs, base_type, object_type):
        super().__init__(h5_attrs, base_type, object_type, _content={})

    def append(self, name, item, h5_attrs):
        fire()
        self._content[name] = item

    def convert(self):
        c = self._content
        assert c['first'] == [c['second']['k'], 'x'], c
        return self.object_type(c['second']['k'])


def register():
    LoaderManager.register_class(DHook, b'dhook', dump_d, load_d)
    LoaderManager.register_class(GHook, b'ghook', dump_g, None, GContainer)
    LoaderManager.register_class(OHook, b'ohook', dump_d, load_d, option='custom')


CLASSES = PHook, DHook, GHook, OHook
