"""All kinds of file target hickle accepts, as context managers."""
import contextlib
import io
import os
import pathlib

import h5py

KINDS = ['str', 'path', 'h5file', 'h5group', 'file', 'bytesio', 'tuple', 'dict', 'filename', 'duck', 'tuple+name', 'dict+name', 'list', 'str+name', 'raw']
LOAD_KINDS = ['str', 'path', 'h5file', 'h5group', 'file', 'bytesio', 'tuple', 'dict', 'filename', 'duck', 'tuple+name', 'dict+name', 'list', 'str+name', 'raw', 'h5file_rw']


class Duck(object):
    """file like object which only offers read, write, seek, tell (and what h5py needs beyond)"""
    def __init__(self, f):
        self._f = f

    def read(self, *a):
        return self._f.read(*a)

    def readinto(self, b):
        return self._f.readinto(b)

    def write(self, b):
        return self._f.write(b)

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def truncate(self, *a):
        return self._f.truncate(*a)

    def flush(self):
        return self._f.flush()


def open_files():
    """number of HDF5 files open in this process"""
    return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)


def open_fds(path):
    """descriptors of this process on the file"""
    n = 0
    for d in os.listdir('/proc/self/fd'):
        try:
            if os.path.realpath(os.readlink('/proc/self/fd/' + d)) == os.path.realpath(path):
                n += 1
        except OSError:
            pass
    return n


class T(object):
    """an open target: what to pass to hickle, keyword arguments, and the caller's handle"""
    def __init__(self, obj, kw, handle, kind):
        self.obj, self.kw, self.handle, self.kind = obj, kw, handle, kind
        self.cls = type(handle)

    def untouched(self):
        """still an object of the class the caller created"""
        return type(self.handle) is self.cls

    def alive(self):
        h = self.handle
        if h is None:
            return True
        if isinstance(h, h5py.Group):
            return bool(h)
        return not h.closed


@contextlib.contextmanager
def dump_target(kind, filename, base='', fresh=True):
    """kind of target on filename; base: group for kind h5group"""
    if kind == 'str':
        yield T(filename, {}, None, kind)
    elif kind == 'str+name':
        yield T(filename, {'filename': 'other name'}, None, kind)
    elif kind == 'path':
        yield T(pathlib.Path(filename), {}, None, kind)
    elif kind in ('h5file', 'h5group'):
        f = h5py.File(filename, 'w' if fresh else 'r+')
        try:
            g = f if kind == 'h5file' else f.require_group(base or 'base group')
            yield T(g, {}, g, kind)
        finally:
            f.close()
    elif kind == 'bytesio':
        b = io.BytesIO()
        if not fresh:
            with open(filename, 'rb') as f:
                b.write(f.read())
                b.seek(0)
        yield T(b, {}, b, kind)
        if b.closed:
            raise ValueError('closed')
        with open(filename, 'wb') as f:
            f.write(b.getvalue())
    else:
        f = open(filename, 'w+b' if fresh else 'r+b', buffering=0 if kind == 'raw' else -1)
        try:
            if kind in ('file', 'raw'):
                yield T(f, {}, f, kind)
            elif kind == 'list':
                yield T([f, 'some name'], {}, f, kind)
            elif kind == 'tuple+name':
                yield T((f, 'some name'), {'filename': 'other name'}, f, kind)
            elif kind == 'dict+name':
                yield T({'file': f, 'name': 'some name'}, {'filename': b'other name'}, f, kind)
            elif kind == 'tuple':
                yield T((f, 'some name'), {}, f, kind)
            elif kind == 'dict':
                yield T({'file': f, 'name': 'some name'}, {}, f, kind)
            elif kind == 'filename':
                yield T(f, {'filename': 'some name'}, f, kind)
            else:
                yield T(Duck(f), {}, f, kind)
        finally:
            f.close()


@contextlib.contextmanager
def load_target(kind, filename, base=''):
    if kind == 'str':
        yield T(filename, {}, None, kind)
    elif kind == 'str+name':
        yield T(filename, {'filename': 'other name'}, None, kind)
    elif kind == 'path':
        yield T(pathlib.Path(filename), {}, None, kind)
    elif kind in ('h5file', 'h5group', 'h5file_rw'):
        f = h5py.File(filename, 'r+' if kind == 'h5file_rw' else 'r')
        try:
            g = f[base] if kind == 'h5group' and base else f
            yield T(g, {}, g, kind)
        finally:
            f.close()
    elif kind == 'bytesio':
        with open(filename, 'rb') as f:
            b = io.BytesIO(f.read())
        yield T(b, {}, b, kind)
    else:
        f = open(filename, 'rb', buffering=0 if kind == 'raw' else -1)
        try:
            if kind in ('file', 'raw'):
                yield T(f, {}, f, kind)
            elif kind == 'list':
                yield T([f, 'some name'], {}, f, kind)
            elif kind == 'tuple+name':
                yield T((f, 'some name'), {'filename': 'other name'}, f, kind)
            elif kind == 'dict+name':
                yield T({'file': f, 'name': 'some name'}, {'filename': b'other name'}, f, kind)
            elif kind == 'tuple':
                yield T((f, 'some name'), {}, f, kind)
            elif kind == 'dict':
                yield T({'file': f, 'name': 'some name'}, {}, f, kind)
            elif kind == 'filename':
                yield T(f, {'filename': 'some name'}, f, kind)
            else:
                yield T(Duck(f), {}, f, kind)
        finally:
            f.close()
