"""Histories of dumps and loads on one file against a model: dict path -> object."""
import io
import os
import warnings

import h5py
import hickle
import numpy as np
from hypothesis import strategies as st

from hv import aeq, gen, ngen, pgen, v3file, v4file
from hv.core import Test, Violation, short
from hv.io import expect

TECHNIQUE = 'stateful property-based testing (hypothesis): generated histories of dump/load/reopen operations with all modes and overlapping paths, compared step by step with a dict model of the file'
LEVEL = 'exploration'
RULE = 'the history holds two or more accepted dumps and at least one rejected operation or truncation'
ASSUMPTIONS = ['file given by name, path object, open HDF5 file or group; of file-like objects only modes which keep the content, truncation is left to h5py', 'after a failed dump below a path nothing is claimed about dumping to the ancestors of that path']

PATHS = ['/', '/a', '/b', '/a/b', '/a/b/c', '/b/c', '/c', '/1', '/x y', '/a/z', '/a b/c', '/ab', '/A']
MODES = ['w', 'w+', 'wb', 'r+', 'r+b', 'a', 'ab', 'x', 'x+', 'a', 'a', 'r', 'rb+', 'bw']


class Bomb(object):
    def __reduce__(self):
        raise RuntimeError('bomb')

    def __repr__(self):
        return 'Bomb()'


@st.composite
def histories(draw):
    objs = draw(st.lists(gen.one_of(gen.trees(max_leaves=4, nan=False), gen.scalars(False), ngen.arrays(ngen.number_dtypes(), 2), pgen.pickled()), min_size=1, max_size=5))
    op = gen.one_of(
        st.tuples(st.just('dump'), st.sampled_from(PATHS), st.integers(0, 4), st.sampled_from(MODES), st.sampled_from(['str', 'path'])),
        st.tuples(st.just('dump'), st.sampled_from(PATHS), st.integers(0, 4), st.sampled_from(['a', 'r+', 'a']), st.sampled_from(['str', 'path'])),
        st.tuples(st.just('open'), st.sampled_from(['a', 'r+', 'r', 'w']),
                  st.lists(st.tuples(st.sampled_from(['dump', 'dump', 'load', 'group', 'bomb']), st.sampled_from(PATHS), st.integers(0, 4), st.sampled_from(['w', 'a', 'r+'])), min_size=1, max_size=5)),
        st.tuples(st.just('stream'), st.sampled_from(PATHS), st.integers(0, 4), st.sampled_from(['a', 'r+', 'ab', 'r+b', 'rb+']), st.sampled_from(['file', 'bytesio', 'tuple'])),
        st.tuples(st.just('load'), st.sampled_from(PATHS)),
        st.tuples(st.just('bomb'), st.sampled_from(PATHS), st.sampled_from(['a', 'r+', 'w', 'a'])),
        st.tuples(st.just('user'), st.sampled_from(['u1', 'u2'])),
        st.tuples(st.just('verify')),
    )
    return objs, draw(st.lists(op, min_size=2, max_size=14))


@st.composite
def legacy_histories(draw):
    """the file was started by an older version of hickle"""
    objs, ops = draw(histories())
    old = draw(gen.one_of(st.lists(st.integers(-9, 9), max_size=3), st.lists(gen.one_of(st.integers(-9, 9), st.sampled_from(['', 'a b', None, 1.5])), max_size=12), st.dictionaries(st.sampled_from(['a', 'b', 'x y', '3']), st.integers(0, 5), max_size=1),
                          st.integers(), st.lists(st.floats(allow_nan=False), min_size=1, max_size=4).map(np.array)))
    if isinstance(old, int):
        old %= 2 ** 62
    start = draw(st.sampled_from(PATHS)), draw(st.sampled_from([3, 4]))
    return objs, [('old', old) + start] + [o for o in ops if o[0] != 'dump' or o[3][0] not in 'wx' or draw(st.integers(0, 3)) == 0]


def under(p, q):
    """p is a proper ancestor of q"""
    if p == q:
        return False
    return p == '/' or q.startswith(p + '/')


class Model(object):
    def __init__(self, fn, objs):
        self.fn = fn
        self.objs = objs
        self.exists = False
        self.store = {}
        self.ghosts = set()
        self.user = {}
        self.rootless = False       # the root of version 3 files is marked as a hickle even if it is none
        self.accepted = self.rejected = self.truncated = 0

    def clear(self):
        if self.store:
            self.truncated += 1
        self.store, self.user = {}, {}
        self.ghosts = set()
        self.rootless = False

    def occupied(self, p):
        """True: dump must be rejected, False: must work, None: not claimed"""
        if p in self.store or any(under(p, q) for q in self.store):
            return True
        if p == '/' and self.user:
            return True
        if any(under(p, q) for q in self.ghosts):
            return None
        return False

    # ---- operations on a target -------------------------------------------------------------------
    def dump(self, target, p, i, mode, handle):
        obj = self.objs[i % len(self.objs)]
        m = mode.replace('b', '')
        if not handle:
            must_fail = (m == 'r') or (m == 'r+' and not self.exists) or (m[0] == 'x' and self.exists)
            truncates = m[0] == 'w'
        else:
            must_fail, truncates = False, False
        if not must_fail:
            occ = self.occupied(p) if not truncates else False
            if occ is None:
                return
            must_fail = occ
        if handle and isinstance(target, h5py.Group) and target.file.mode == 'r':
            must_fail = True
        before_exists = self.exists
        try:
            hickle.dump(obj, target, mode, path=p)
        except Exception as e:
            if not must_fail:
                raise Violation('dump of %s to %s mode %r raised %r; stored: %s' % (short(obj, 200), p, mode, e, sorted(self.store))) from e
            self.rejected += 1
            if not handle:
                if os.path.exists(self.fn) != before_exists and m[0] != 'a':
                    raise Violation('rejected dump in mode %r changed the existence of the file' % mode)
            self.exists = os.path.exists(self.fn)
            if not handle:
                self.verify()
            return
        if must_fail:
            raise Violation('dump of %s to %s mode %r was accepted; stored: %s' % (short(obj, 200), p, mode, sorted(self.store)))
        if truncates:
            self.clear()
        self.exists = True
        self.accepted += 1
        self.store[p] = obj
        self.ghosts.discard(p)

    def bomb(self, target, p, mode, handle):
        m = mode
        if not handle and m == 'r+' and not self.exists:
            return
        if self.occupied(p) is not False and not (m == 'w' and not handle):
            return
        if handle and target.file.mode == 'r':
            return
        try:
            hickle.dump([1, 'x', {'k': Bomb()}], target, mode, path=p)
        except RuntimeError:
            pass
        else:
            raise Violation('dump of an object which can not be pickled did not fail')
        self.rejected += 1
        if m == 'w' and not handle:
            self.clear()
        self.exists = True
        self.ghosts.add(p)
        self.load(target if handle else self.fn, p)

    def load(self, target, p):
        if p in self.store:
            try:
                y = hickle.load(target, path=p)
            except Exception as e:
                raise Violation('load of %s raised %s; stored: %s' % (p, short(e, 800), sorted(self.store))) from e
            expect(self.store[p], y, what='object at path %s' % p)
        elif not (p == '/' and self.rootless):
            try:
                y = hickle.load(target, path=p)
            except Exception:
                return
            raise Violation('load of %s returned %s though nothing is stored there; stored: %s' % (p, short(y, 200), sorted(self.store)))

    def verify(self):
        if not self.exists:
            return
        for p in PATHS:
            self.load(self.fn, p)
        if self.user:
            with h5py.File(self.fn, 'r') as f:
                for n, v in self.user.items():
                    if f[n]['d'][()].tolist() != v or f[n].attrs['note'] != 'mine':
                        raise Violation('foreign data of the file changed')


def check(case, ctx):
    objs, ops = case
    fn = ctx.path()
    import pathlib
    m = Model(fn, objs)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for op in ops:
            if op[0] == 'old':
                (v3file if op[3] == 3 else v4file).write(op[1], fn, op[2])
                m.exists = True
                m.store[op[2]] = op[1]
                m.accepted += 1
                m.rootless = op[3] == 3 and op[2] != '/'
            elif op[0] == 'dump':
                m.dump(fn if op[4] == 'str' else pathlib.Path(fn), op[1], op[2], op[3], False)
            elif op[0] == 'stream':
                # file or file-like object which already holds the file; it is never truncated
                if not m.exists:
                    continue
                if op[4] == 'bytesio':
                    with open(fn, 'rb') as f:
                        b = io.BytesIO(f.read())
                    m.dump(b, op[1], op[2], op[3], True)
                    m.load(b, op[1])
                    with open(fn, 'wb') as f:
                        f.write(b.getvalue())
                else:
                    with open(fn, 'r+b') as f:
                        m.dump(f if op[4] == 'file' else (f, 'name'), op[1], op[2], op[3], True)
                        m.load(f, op[1])
            elif op[0] == 'load':
                m.load(fn, op[1])
            elif op[0] == 'bomb':
                m.bomb(fn, op[1], op[2], False)
            elif op[0] == 'verify':
                m.verify()
            elif op[0] == 'user':
                if m.exists and op[1] not in m.user:
                    with h5py.File(fn, 'r+') as f:
                        g = f.create_group(op[1])
                        g.create_dataset('d', data=[1, 2, 3])
                        g.attrs['note'] = 'mine'
                    m.user[op[1]] = [1, 2, 3]
            else:
                mode = op[1]
                if mode in ('r', 'r+') and not m.exists:
                    continue
                with h5py.File(fn, mode) as f:
                    m.exists = True
                    if mode == 'w':
                        m.clear()
                    for sub in op[2]:
                        k, p, i, dm = sub
                        if k == 'dump':
                            m.dump(f, p, i, dm, True)
                        elif k == 'load':
                            m.load(f, p)
                        elif k == 'bomb':
                            m.bomb(f, p, dm, True)
                        elif mode != 'r' and p != '/':
                            # through the parent group
                            parent, _, name = p.rpartition('/')
                            if parent and (parent in f) and isinstance(f[parent], h5py.Group):
                                before = set(m.store)
                                occ = m.occupied(p)
                                if occ is False:
                                    obj = m.objs[i % len(m.objs)]
                                    hickle.dump(obj, f[parent], dm, path=name)
                                    m.store[p] = obj
                                    m.accepted += 1
                                    m.ghosts.discard(p)
                                    m.load(f, p)
                    if not f:
                        raise Violation('the open file was closed')
        m.verify()
    ctx.nontrivial(m.accepted >= 2 and (m.rejected or m.truncated))


TESTS = [Test('legacy', legacy_histories, check, 1200, 15000), Test('history', histories, check, 4800, 60000)]
