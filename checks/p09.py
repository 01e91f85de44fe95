import contextlib
import gc
import io
import os
import warnings

import h5py
import hickle
import numpy as np
from hickle.lookup import SerializedWarning
from hypothesis import strategies as st

from hv import aeq, eq, faults, gen, ngen, pgen
from hv import targets as tg
from hv.core import Test, Violation, Discard, short
from hv.io import expect

TECHNIQUE = 'property-based testing with fault injection (hypothesis): failing element at a generated position of a generated object, or failure of the n-th HDF5 call, for every n drawn; afterwards the file, the other objects, the handles and the next calls are compared with a run without the failure'
LEVEL = 'fault_enumeration'
RULE = 'the fault was really raised inside dump or load'
ASSUMPTIONS = ['faults are exceptions raised by dumped objects, by warning filters and by h5py calls; the process itself survives', 'failures while HDF5 flushes or closes a file are not injected']


def load_raises(target, what, **kw):
    try:
        y = hickle.load(target, **kw)
    except Exception:
        return
    raise Violation('%s: load returned %s' % (what, short(y, 300)))


def must_load(x, target, what, **kw):
    try:
        y = hickle.load(target, **kw)
    except Exception as e:
        raise Violation('%s: load raised %s' % (what, short(e, 600))) from e
    expect(x, y, what=what)


def must_dump(x, target, mode, what, **kw):
    try:
        hickle.dump(x, target, mode, **kw)
    except Exception as e:
        raise Violation('%s: dump raised %r' % (what, e)) from e


# ---- where to put the failing element ---------------------------------------------------------------
def insert(tree, pos, bomb):
    """tree with bomb at position pos of its places"""
    places = []

    def walk(x, rebuild):
        if type(x) is list or type(x) is tuple:
            for i in range(len(x) + 1):
                places.append(lambda i=i, x=x: rebuild(type(x)(list(x[:i]) + [bomb] + list(x[i:]))))
            for i, c in enumerate(x):
                walk(c, lambda n, i=i, x=x: rebuild(type(x)(list(x[:i]) + [n] + list(x[i + 1:]))))
        elif type(x) is dict:
            places.append(lambda: rebuild(dict(x, bomb=bomb)))
            places.append(lambda: rebuild(dict(list(x.items()) + [(bomb, 1)])))
            places.append(lambda: rebuild(dict([(('k', bomb), 1)] + list(x.items()))))
            for k, c in x.items():
                places.append(lambda k=k: rebuild(dict(x, **{}) | {k: bomb}))
                walk(c, lambda n, k=k: rebuild(dict(x) | {k: n}))
        elif type(x) is set:
            places.append(lambda: rebuild(x | {bomb}))
        elif isinstance(x, np.ndarray) and x.dtype == object and x.size and x.ndim:
            def arr():
                y = x.copy()
                y.ravel()[-1] = bomb
                y2 = x.copy()
                y2[np.unravel_index(x.size - 1, x.shape)] = bomb
                return rebuild(y2)
            places.append(arr)
        else:
            places.append(lambda: rebuild([x, bomb]))
            places.append(lambda: rebuild(bomb))
    walk(tree, lambda n: n)
    return places[pos % len(places)]()


@st.composite
def dump_cases(draw):
    c = {
        'tree': draw(gen.one_of(gen.trees(max_leaves=6, nan=False), pgen.mixed(5))),
        'pos': draw(st.integers(0, 60)),
        'exc': draw(st.sampled_from(['RuntimeError', 'TypeError', 'KeyError', 'OSError', 'KeyboardInterrupt', 'ValueError', 'AttributeError'])),
        'other': draw(gen.one_of(gen.trees(max_leaves=3, nan=False), gen.scalars(False))),
        'third': draw(gen.one_of(gen.trees(max_leaves=3, nan=False), gen.scalars(False))),
        'target': draw(st.sampled_from(['str', 'path', 'h5file', 'h5group', 'bytesio', 'file'])),
        'layout': draw(st.sampled_from(['alone', 'sibling', 'below', 'nested', 'alone', 'replace'])),
        'kw': draw(ngen.compressions()),
        'how': draw(st.sampled_from(['bomb', 'bomb', 'fault', 'fault', 'warning'])),
        'nth': draw(st.integers(1, 80)),
        'repeat': draw(st.integers(1, 2)),
    }
    return c


def place(case):
    """(path of other object or None, path of failing dump)"""
    lay = case['layout']
    return {'alone': (None, '/'), 'sibling': ('/other', '/new'), 'below': ('/', '/new'), 'nested': ('/p/other', '/p/q/new'), 'replace': ('/other', '/')}[lay]


def check_dump(case, ctx):
    fn = ctx.path()
    kind = case['target']
    other_path, path = place(case)
    mode = 'a'
    truncated = False
    if case['layout'] == 'replace':
        # truncating dump which fails: the old content is gone, nothing else may be there
        if kind not in ('str', 'path'):
            raise Discard
        mode, truncated = 'w', True
    tree = case['tree']
    sentinel = ctx.path()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        hickle.dump(case['third'], sentinel, 'w')
        if other_path:
            hickle.dump(case['other'], fn, 'w', path=other_path)
        elif kind in ('h5group',):
            with h5py.File(fn, 'w') as f:
                f.create_group('g')
        else:
            with h5py.File(fn, 'w') as f:
                pass
        base = 'g' if kind == 'h5group' and not other_path else 'p' if kind == 'h5group' and case['layout'] == 'nested' else ''
        rel = path[2:] if base == 'p' else path
        full = '/g' if base == 'g' else path
        k = kind if kind != 'h5group' or base else 'h5file'
        fired = False
        gc_was = gc.isenabled()
        with tg.dump_target(k, fn, base, fresh=False) as t:
            before = tg.open_files(), tg.open_fds(fn)
            for _ in range(case['repeat']):
                if case['how'] == 'bomb':
                    bad = insert(tree, case['pos'], faults.Bomb(case['exc']))
                    exc = faults.BOMB_EXC[case['exc']]
                    try:
                        hickle.dump(bad, t.obj, mode, path=rel, **case['kw'])
                    except BaseException as e:
                        if not isinstance(e, exc):
                            raise Violation('the dumped object raised %s, dump raised %r' % (exc.__name__, e)) from e
                        fired = True
                    else:
                        raise Violation('dump of %s did not fail' % short(bad))
                elif case['how'] == 'warning':
                    warnings.simplefilter('error', SerializedWarning)
                    try:
                        hickle.dump([tree, {'x': range(3)}, tree], t.obj, mode, path=rel, **case['kw'])
                    except SerializedWarning:
                        fired = True
                    else:
                        raise Violation('pickling did not warn')
                    finally:
                        warnings.simplefilter('ignore')
                else:
                    exc = faults.Injected if case['exc'] != 'KeyboardInterrupt' else KeyboardInterrupt
                    with faults.fail_at(case['nth'], exc) as c:
                        try:
                            hickle.dump(tree, t.obj, mode, path=rel, **case['kw'])
                        except exc:
                            if not c.fired:
                                raise
                            fired = True
                        else:
                            if c.fired:
                                raise Violation('fault in HDF5 call %d was swallowed by dump' % case['nth'])
                            raise Discard
                if (tg.open_files(), tg.open_fds(fn)) != before:
                    raise Violation('failing dump left a file open: %s' % ((tg.open_files(), tg.open_fds(fn)),))
                if not t.alive():
                    raise Violation('failing dump closed the handle of the caller')
                if gc.isenabled() != gc_was:
                    raise Violation('failing dump switched garbage collection')
                # nothing half done can be loaded, through this handle or any other
                load_raises(t.obj, 'after failing dump', path=rel)
                # a different file is not affected
                must_load(case['third'], sentinel, 'other file after failing dump')
                if other_path and not truncated and k in ('h5file', 'h5group') and not base:
                    must_load(case['other'], t.obj, 'other object of the file', path=other_path)
            if case['how'] != 'bomb' or True:
                # as if the failure never happened
                m2 = mode if not truncated else 'a'
                must_dump(case['third'], t.obj, m2, 'dump after failing dump', path=rel, **case['kw'])
                must_load(case['third'], t.obj, 'object dumped after failing dump', path=rel)
        if other_path and not truncated:
            must_load(case['other'], fn, 'other object of the file', path=other_path)
        if truncated:
            load_raises(fn, 'content of truncated file', path=other_path)
        must_load(case['third'], fn, 'object dumped after failing dump', path=full)
    ctx.nontrivial(fired)


@st.composite
def load_cases(draw):
    return {
        'tree': draw(gen.one_of(gen.trees(max_leaves=6, nan=False), pgen.mixed(5))),
        'third': draw(gen.trees(max_leaves=3, nan=False)),
        'target': draw(st.sampled_from(['str', 'path', 'h5file', 'bytesio', 'file', 'h5file_rw'])),
        'nth': draw(gen.one_of(st.integers(1, 60), st.integers(1, 15))),
        'exc': draw(st.sampled_from(['Injected', 'KeyboardInterrupt', 'RuntimeError'])),
        'path': draw(st.sampled_from(['/', '/a/b'])),
    }


def check_load(case, ctx):
    fn, sentinel = ctx.path(), ctx.path()
    exc = {'Injected': faults.Injected, 'KeyboardInterrupt': KeyboardInterrupt, 'RuntimeError': RuntimeError}[case['exc']]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        hickle.dump(case['third'], sentinel, 'w')
        hickle.dump(case['tree'], fn, 'w', path=case['path'])
        with tg.load_target(case['target'], fn) as t:
            before = tg.open_files(), tg.open_fds(fn)
            gc_was = gc.isenabled()
            with faults.fail_at(case['nth'], exc, faults.READ) as c:
                try:
                    y = hickle.load(t.obj, path=case['path'])
                except BaseException as e:
                    if not c.fired:
                        raise Violation('load raised %s' % short(e, 500)) from e
                    if exc is KeyboardInterrupt and not isinstance(e, KeyboardInterrupt):
                        raise Violation('KeyboardInterrupt was turned into %r' % e) from e
                else:
                    expect(case['tree'], y, what='load returned a wrong object after a fault in HDF5 call %d' % case['nth'])
            if (tg.open_files(), tg.open_fds(fn)) != before:
                raise Violation('failing load left a file open')
            if not t.alive():
                raise Violation('failing load closed the handle of the caller')
            if gc.isenabled() != gc_was:
                raise Violation('failing load switched garbage collection')
            must_load(case['tree'], t.obj, 'load after failing load', path=case['path'])
            must_load(case['third'], sentinel, 'other file after failing load')
        hickle.dump(case['third'], fn, 'w')
        must_load(case['third'], fn, 'dump after failing load')
    ctx.nontrivial(c.fired)


# ---- every single fault point of one object ----------------------------------------------------------
@st.composite
def sweep_cases(draw):
    return draw(gen.one_of(gen.trees(max_leaves=5, nan=False), pgen.mixed(3))), draw(st.booleans())


def check_sweep(case, ctx):
    tree, with_other = case
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        buf = ctx.path()
        with faults.fail_at(0) as c:
            hickle.dump(tree, buf, 'w')
        total = c.calls
        if total > 150:
            raise Discard
        fn = ctx.path()
        if with_other:
            hickle.dump(['other', 1], fn, 'w', path='/o')
        else:
            h5py.File(fn, 'w').close()
        for n in range(1, total + 1):
            with faults.fail_at(n) as c:
                try:
                    hickle.dump(tree, fn, 'a', path='/x')
                except faults.Injected:
                    pass
                else:
                    if c.fired:
                        raise Violation('fault in HDF5 call %d of %d was swallowed by dump' % (n, total))
                    break
            load_raises(fn, 'after failure of HDF5 call %d of %d' % (n, total), path='/x')
            if with_other:
                must_load(['other', 1], fn, 'other object after failure of HDF5 call %d of %d' % (n, total), path='/o')
        else:
            must_dump(tree, fn, 'a', 'dump after %d failing ones' % total, path='/x')
        must_load(tree, fn, 'object dumped after failing dumps', path='/x')
        if with_other:
            must_load(['other', 1], fn, 'other object', path='/o')
    ctx.label('fault points %d' % (total // 20 * 20))
    ctx.nontrivial(total > 5)


TESTS = [
    Test('dump', dump_cases, check_dump, 4400, 80000),
    Test('load', load_cases, check_load, 2000, 40000),
    Test('sweep', sweep_cases, check_sweep, 304, 6000),
]
