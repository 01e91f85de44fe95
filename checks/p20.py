import os
import pickle
import subprocess
import sys
import warnings

import h5py
import hickle
import numpy as np
import pandas        # noqa: F401  otherwise imported again by every child
from hypothesis import strategies as st

from checks import p12, p17
from hv import aeq, agen, eq, gen, h5snap, ngen, pgen, sgen, v3file, v4file
from hv import userlib as U
from hv.core import Test, Violation, short
from hv.io import expect
from hv import io

TECHNIQUE = 'property-based testing (hypothesis), model-based: generated sequences of dumps and loads are spread over fresh processes (forked from one which never used hickle, or new interpreters) and every result compared with the object dumped'
LEVEL = 'exploration'
RULE = 'a file is loaded by another process than the one that dumped it, or in one which handled another object before'
ASSUMPTIONS = ['all processes find the same modules; processes run one after the other', 'the bytes of a pickled object are not compared between files (objects may cache things)']


@gen.cached
def v3_objects():
    leaf = gen.one_of(st.integers(-99, 99), st.text(alphabet='abc', min_size=1, max_size=4), st.just(np.arange(4.)), st.just(np.float32(2)), st.none())
    return st.recursive(leaf, lambda c: gen.one_of(st.lists(c, min_size=2, max_size=3).map(lambda l: ['m', 1] + l), st.dictionaries(st.text(alphabet='xyz', min_size=1, max_size=2), c, min_size=1, max_size=1)), max_leaves=4)


@gen.cached
def any_objects():
    one = gen.one_of(sgen.sparse(), agen.quantities(), agen.angles(), agen.times(), agen.skycoords(), agen.tables(), agen.constants(), ngen.anything(), ngen.masked(), ngen.dtypes(), ngen.np_scalars(), pgen.pickled(), gen.trees(nan=False, max_leaves=4), p17.trees(3))
    return gen.one_of(one, one, st.lists(one, min_size=2, max_size=3), st.dictionaries(st.text(max_size=3), one, min_size=1, max_size=2), one.map(lambda x: (x, x)))


@st.composite
def cases(draw):
    objs = draw(st.lists(any_objects(), min_size=1, max_size=3))
    files = draw(st.lists(gen.one_of(st.tuples(st.just('v4'), p12.trees().map(p12.clean)), st.tuples(st.just('v3'), v3_objects())), max_size=1))
    n = len(objs) + len(files)
    kw = draw(st.sampled_from([{}, {}, {'compression': 'gzip'}]))
    plan = draw(st.lists(st.lists(st.tuples(st.sampled_from(['load', 'dump', 'load', 'both']), st.integers(0, n - 1)), min_size=1, max_size=4), min_size=1, max_size=3))
    return objs, files, kw, plan


def forked(fn):
    """runs fn in a child process, raises what it reports"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            warnings.simplefilter('ignore')
            try:
                fn()
                msg = b'ok'
            except Violation as v:
                msg = b'V' + str(v).encode('utf8', 'backslashreplace')
            except BaseException as e:
                import traceback
                msg = b'V' + ('unexpected ' + short(traceback.format_exc(), 3000)).encode('utf8', 'backslashreplace')
            os.write(w, msg[:30000])
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if status or not data:
        raise Violation('process died with status %d' % status)
    if data != b'ok':
        raise Violation(data[1:].decode('utf8', 'replace'))


def steps(items, todo, d, kw, dumped):
    def run():
        for i, (what, k) in enumerate(todo):
            kind, x = items[k]
            where = 'step %d (%s of %s object %d)' % (i, what, kind, k)
            fn = os.path.join(d, 'o%d' % k)
            try:
                if kind == 'now' and (what != 'load' or k not in dumped):
                    io.dump(x, fn, mode='w', **kw)
                    dumped.add(k)
                if what != 'dump':
                    compare(kind, x, io.load(fn), where)
            except Violation as v:
                if str(v).startswith('step'):
                    raise
                raise Violation('%s: %s' % (where, v)) from v
    return run


def compare(kind, x, y, where):
    expect(x, p12.plain(y) if kind == 'v4' else y, what=where)


def check(case, ctx):
    objs, files, kw, plan = case
    d = os.path.join(ctx.scratch, 'd%d' % ctx._n)
    ctx._n += 1
    os.makedirs(d)
    items = [('now', x) for x in objs] + files
    for k, (kind, x) in enumerate(items):
        if kind == 'v4':
            v4file.write(x, os.path.join(d, 'o%d' % k))
        elif kind == 'v3':
            v3file.write(x, os.path.join(d, 'o%d' % k))
    before = set()
    handled = 0
    for todo in plan:
        mine = set(before)
        forked(steps(items, todo, d, kw, set(before)))
        for w, k in todo:
            if items[k][0] == 'now' and (w != 'load' or k not in before):
                mine.add(k)
            handled += w != 'dump' and k in before
        before |= mine
    ctx.nontrivial(handled or any(len({k for _, k in t}) > 1 for t in plan), key=short(case, 5000))
    for k, (kind, x) in enumerate(items):
        ctx.label(kind)


# ---- really new interpreters -------------------------------------------------------------------------
LOADER = '''
import sys, pickle, warnings
warnings.simplefilter('ignore')
sys.path[:0] = sys.argv[1].split(':')
import hickle
import hv.oddlib      # modules which can not be found otherwise
out = []
for fn in sys.argv[3:]:
    try:
        out.append(('ok', hickle.load(fn)))
    except Exception as e:
        out.append(('error', repr(e)))
with open(sys.argv[2], 'wb') as f:
    pickle.dump(out, f)
'''


@gen.cached
def new_cases():
    one = gen.one_of(any_objects(), sgen.sparse(), agen.quantities(), agen.skycoords(), agen.times(), ngen.anything(), pgen.pickled(), p17.trees(3))
    return st.lists(one, min_size=3, max_size=6)


def check_new(case, ctx):
    d = os.path.join(ctx.scratch, 'n%d' % ctx._n)
    ctx._n += 1
    os.makedirs(d)
    names = [os.path.join(d, 'o%d' % i) for i in range(len(case))]

    def dump():
        for x, fn in zip(case, names):
            io.dump(x, fn, mode='w')
    forked(dump)
    out = os.path.join(d, 'out')
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    r = subprocess.run([sys.executable, '-c', LOADER, ':'.join([os.path.dirname(os.path.dirname(hickle.__file__)), root]), out] + names[::-1], stdin=subprocess.DEVNULL, capture_output=True, timeout=110, cwd=d)
    if r.returncode:
        raise Violation('new interpreter failed: %s' % short(r.stderr.decode('utf8', 'replace'), 2000))
    with open(out, 'rb') as f:
        res = pickle.load(f)[::-1]
    for i, (x, (state, y)) in enumerate(zip(case, res)):
        if state != 'ok':
            raise Violation('load of object %d in a new interpreter raised %s\n  object %s' % (i, y, short(x)))
        # y came back by pickle, which does not keep the byte order of some arrays
        expect(pickle.loads(pickle.dumps(x)), y, what='object %d loaded by a new interpreter' % i)
    ctx.nontrivial(True, key=short(case, 4000))


# ---- the file written does not depend on the history either ----------------------------------------------------
@gen.cached
def registered():
    return st.builds(lambda c, v: c(v), st.sampled_from([U.Registered, U.SubRegistered, U.SubSubRegistered]), gen.one_of(gen.scalars(False), gen.number_lists(False)))


@gen.cached
@st.composite
def written_cases(draw):
    one = gen.one_of(any_objects(), registered(), registered(), p17.trees(3), st.lists(registered(), min_size=1, max_size=3))
    objs = draw(st.lists(one, min_size=1, max_size=3))
    options = st.sampled_from([None, None, {}, {'custom': True}, {'custom': False}])
    history = draw(st.lists(st.tuples(st.integers(0, len(objs) - 1), options, st.booleans()), min_size=1, max_size=5))
    return objs, history, draw(options), draw(st.sampled_from([{}, {}, {'compression': 'gzip'}])), draw(st.booleans())


def check_written(case, ctx):
    objs, history, options, kw, clash = case
    d = os.path.join(ctx.scratch, 'w%d' % ctx._n)
    ctx._n += 1
    os.makedirs(d)
    x = objs[0]

    def dump(x, fn, opts):
        io.dump(x, os.path.join(d, fn), mode='w', **kw, **({} if opts is None else {'options': opts}))

    def run(steps, fn):
        from hickle.lookup import LoaderManager

        class Container(hickle.helpers.PyContainer):
            def convert(self):
                return self.object_type(self._content[0])
        LoaderManager.register_class(U.Registered, b'hvreg', U.dump_registered, None, Container)
        LoaderManager.register_class(U.Registered, b'hvregc', U.dump_registered_custom, None, Container, option='custom')
        if clash:
            LoaderManager.register_class(U.SubRegistered, b'hvsub', U.dump_registered, None, Container)
        for n, (k, opts, read) in enumerate(steps):
            dump(objs[k], 'h%d' % n, opts)
            if read:
                io.load(os.path.join(d, 'h%d' % n))
        dump(x, fn, options)
    forked(lambda: run([], 'fresh'))
    forked(lambda: run(history, 'later'))
    snaps = []
    for fn in ('fresh', 'later'):
        with h5py.File(os.path.join(d, fn), 'r') as f:
            snaps.append(h5snap.snapshot(f, pickles=False))
    ctx.nontrivial(True, key=short(case, 5000))
    if snaps[0] != snaps[1]:
        n = [k for k in sorted(set(snaps[0]) | set(snaps[1])) if snaps[0].get(k) != snaps[1].get(k)][0]
        raise Violation('%s, dumped with options %s, is written differently after %s\n  at %s\n  fresh %s\n  later %s' % (short(x), options, short(history), n, short(snaps[0].get(n)), short(snaps[1].get(n))))


TESTS = [Test('processes', cases, check, 1800, 30000), Test('interpreters', new_cases, check_new, 16, 400), Test('written', written_cases, check_written, 600, 20000)]
