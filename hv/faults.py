"""Failures injected into dump and load."""
import contextlib

import h5py

BOMB_EXC = {'RuntimeError': RuntimeError, 'TypeError': TypeError, 'KeyError': KeyError, 'OSError': OSError, 'KeyboardInterrupt': KeyboardInterrupt,
            'MemoryError': None, 'ValueError': ValueError, 'AttributeError': AttributeError, 'RecursionError': RecursionError}


class Bomb(object):
    """can not be pickled; hashable"""
    def __init__(self, exc='RuntimeError'):
        self.exc = exc

    def __reduce_ex__(self, protocol):
        raise BOMB_EXC[self.exc]('bomb')

    def __repr__(self):
        return 'Bomb(%r)' % self.exc


class Injected(OSError):
    pass


class Counter(object):
    def __init__(self, n, exc):
        self.n, self.exc, self.calls, self.fired = n, exc, 0, False

    def hit(self):
        self.calls += 1
        if self.calls == self.n:
            self.fired = True
            raise self.exc('injected fault')


def _wrap(fn, counter):
    def w(*a, **k):
        counter.hit()
        return fn(*a, **k)
    return w


WRITE = [(h5py.Group, 'create_dataset'), (h5py.Group, 'create_group'), (h5py.AttributeManager, '__setitem__')]
READ = [(h5py.Dataset, '__getitem__'), (h5py.AttributeManager, '__getitem__'), (h5py.Group, '__getitem__')]


@contextlib.contextmanager
def fail_at(n, exc=Injected, where=WRITE):
    """the n-th call of one of the h5py methods raises; n=0 only counts them"""
    c = Counter(n, exc)
    saved = [(cls, name, cls.__dict__[name]) for cls, name in where]
    for cls, name, fn in saved:
        setattr(cls, name, _wrap(fn, c))
    try:
        yield c
    finally:
        for cls, name, fn in saved:
            setattr(cls, name, fn)
