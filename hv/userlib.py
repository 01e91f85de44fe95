"""Importable user classes handed to hickle by the checks."""
import collections
import dataclasses
import enum

import numpy as np


class _Eq(object):
    def _key(self):
        raise NotImplementedError

    def __eq__(self, other):
        return type(self) is type(other) and self._key() == other._key()

    def __hash__(self):
        return hash(type(self).__name__)

    def __repr__(self):
        return '%s%r' % (type(self).__name__, self._key())


class Plain(_Eq):
    def __init__(self, a=None, b=None):
        self.a, self.b = a, b

    def _key(self):
        return self.a, self.b


class Slots(_Eq):
    __slots__ = ('a', 'b')

    def __init__(self, a=None, b=None):
        self.a, self.b = a, b

    def _key(self):
        return self.a, self.b


class State(_Eq):
    """restores through __setstate__"""
    def __init__(self, a=None):
        self.a = a

    def __getstate__(self):
        return {'x': [self.a]}

    def __setstate__(self, s):
        self.a = s['x'][0]

    def _key(self):
        return (self.a,)


@dataclasses.dataclass(frozen=True)
class Data:
    n: int
    s: str


class Colour(enum.Enum):
    RED = 1
    BLUE = 'b'
    BOTH = (1, 'b')


def func(x):
    return x


# ---- classes derived from built-in types ------------------------------------------------------------
class MyInt(int):
    pass


class MyFloat(float):
    pass


class MyComplex(complex):
    pass


class MyStr(str):
    pass


class MyBytes(bytes):
    pass


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MyDict(dict):
    pass


class MySet(set):
    pass


class MyOD(collections.OrderedDict):
    pass


class SubList(MyList):
    pass


class SubDict(MyDict):
    pass


class Shown:
    """displays as something which is no use for restoring"""
    def __str__(self):
        return '<shown %s>' % type(self).__name__

    __repr__ = __str__

    def __format__(self, spec):
        return '<formatted>'


class ShownInt(Shown, int):
    pass


class ShownFloat(Shown, float):
    pass


class ShownComplex(Shown, complex):
    pass


class ShownStr(Shown, str):
    pass


class ShownBytes(Shown, bytes):
    pass


class ShownList(Shown, list):
    pass


class ShownDict(Shown, dict):
    pass


Point = collections.namedtuple('Point', 'x y')
One = collections.namedtuple('One', 'only')
Empty = collections.namedtuple('Empty', '')


class SubPoint(Point):
    __slots__ = ()


class IntEn(enum.IntEnum):
    A = 1
    B = 2
    BIG = 2 ** 40


class StrEn(str, enum.Enum):
    A = 'a'
    B = 'b/c'


class Flg(enum.Flag):
    A = 1
    B = 2


class IntFlg(enum.IntFlag):
    A = 1
    B = 2


# ---- classes with their own idea of pickling ---------------------------------------------------------
class Node:
    """plain object with whatever attributes, compared by the graph comparison"""
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Args:
    """restored through __getnewargs_ex__"""
    def __new__(cls, *args, **kw):
        o = object.__new__(cls)
        o.args, o.kw = args, kw
        return o

    def __getnewargs_ex__(self):
        return self.args, self.kw

    def __getstate__(self):
        return None


class Reduced:
    """restored through a function, state set afterwards"""
    def __init__(self, a):
        self.a = a
        self.late = None

    def __reduce__(self):
        return Reduced, (self.a,), {'late': self.late}


class Registry:
    """pickled by name"""
    def __init__(self, name):
        self.name = name

    def __reduce__(self):
        return self.name


SINGLE = Registry('SINGLE')


class Frozen(frozenset):
    pass


class Arr(bytearray):
    pass


class Err(Exception):
    def __init__(self, a, b=None):
        super().__init__(a)
        self.b = b


class Outer:
    class Inner:
        def __init__(self, a=None):
            self.a = a

        def method(self):
            return self.a

    @classmethod
    def make(cls):
        return cls()


class SlotState:
    __slots__ = ('x', '__dict__')

    def __init__(self, x, y):
        self.x = x
        self.y = y


class Gen(Node):
    """implements the sequence and mapping protocols but is neither list nor dict"""
    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __getitem__(self, i):
        return self.items[i]

    def keys(self):
        return range(len(self.items))


class Falsy(Node):
    def __bool__(self):
        return False


class ArrayLike(Node):
    """offers numpy an array and a shape"""
    def __array__(self, dtype=None, copy=None):
        import numpy as np
        return np.array(self.items, dtype=dtype)

    shape = (3,)
    dtype = 'whatever'


class NoEq(Node):
    def __eq__(self, other):
        raise RuntimeError('must not be compared')

    __hash__ = object.__hash__


class Registered:
    """its loaders are registered by the check, with and without option"""
    def __init__(self, v=None):
        self.v = v

    def __repr__(self):
        return '%s(%r)' % (type(self).__name__, self.v)


class SubRegistered(Registered):
    pass


class SubSubRegistered(SubRegistered):
    pass


def dump_registered(py_obj, h_group, name, **kwargs):
    g = h_group.create_group(name)
    g.attrs['how'] = 'plain'
    return g, (('v', py_obj.v, {}, kwargs),)


def dump_registered_custom(py_obj, h_group, name, **kwargs):
    g = h_group.create_group(name)
    g.attrs['how'] = 'custom'
    return g, (('v', py_obj.v, {}, kwargs),)


class SubArray(np.ndarray):
    pass


class SubMatrix(np.matrix):
    pass


def _restore_info(a, info):
    a = np.array(a).view(InfoArray)
    a.info = info
    return a


class InfoArray(np.ndarray):
    """more than its items"""
    info = None

    def __array_finalize__(self, obj):
        self.info = getattr(obj, 'info', None)

    def __reduce__(self):
        return _restore_info, (np.array(self), self.info)
