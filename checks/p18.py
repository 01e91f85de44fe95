import gc
import os
import sys
import types
import warnings

import h5py
import hickle
import numpy as np
from hypothesis import strategies as st

from hv import aeq, eq, gen, hooks, ngen, pgen, v3file, v4file
from hv import targets as tg
from hv.core import Test, Violation, short
from hv.io import expect
from hv.sched import Scheduler

TECHNIQUE = 'property-based testing (hypothesis), model-based: generated trees of dumps and loads which start, fail and get interrupted inside one another under a deterministic generated thread schedule, against a model in which every operation runs alone'
LEVEL = 'exploration'
RULE = 'an operation started or continued while another one was in progress'
ASSUMPTIONS = ['operations are interrupted where hickle calls the code of dumped objects, registered loaders and containers; threads never run in parallel inside HDF5', 'a rejected or failed dump may leave an empty group behind']

hooks.register()
NAMES = ['a.hkl', 'a.h5', 'b.hkl', 'a.b.hkl', 'a']
PATHS = ['/', '/p', '/q/r', '/s']


# classes which are gone when the file holding their instances is loaded
_gone = types.ModuleType('hv_p18_gone')


class GoneList(list):
    __module__ = 'hv_p18_gone'


class GoneDict(dict):
    __module__ = 'hv_p18_gone'


_gone.GoneList, _gone.GoneDict = GoneList, GoneDict


def dump_gone(x, name, path):
    sys.modules['hv_p18_gone'] = _gone
    try:
        hickle.dump(x, name, 'w', path)
    finally:
        sys.modules['hv_p18_gone'] = None


def canon(x):
    """comparable form of recovered data"""
    attrs = [(k, repr(v)) for k, v in sorted(getattr(x, 'attrs', {}).items())]
    if isinstance(x, dict):
        return type(x).__name__, attrs, [(canon(k), canon(v)) for k, v in x.items()]
    if isinstance(x, np.ndarray):
        return type(x).__name__, attrs, str(x.dtype), repr(x.tolist())
    if isinstance(x, (list, tuple)):
        return type(x).__name__, [canon(i) for i in x]
    return type(x).__name__, repr(x)


class Recovered:
    """what loading the file alone returns"""
    def __init__(self, x):
        self.canon = canon(x)


class Planned(Exception):
    """failure asked for by the case"""


# ---- generators --------------------------------------------------------------------------------------
@gen.cached
def hook():
    return st.builds(lambda c, i: c(i), st.sampled_from(hooks.CLASSES), st.integers(0, 50))


@gen.cached
def objects():
    leaf = gen.one_of(hook(), hook(), hook(), hook(), gen.scalars(nan=False), ngen.arrays(), gen.number_lists(nan=False), pgen.pickled(), gen.sets(), ngen.object_arrays())
    return st.recursive(leaf, lambda c: gen.one_of(st.lists(c, min_size=1, max_size=4), st.lists(c, min_size=1, max_size=4).map(tuple),
                                                  st.dictionaries(gen.one_of(st.text(max_size=3), st.tuples(hook(), st.text(max_size=3))), c, max_size=3)), max_leaves=4)


@gen.cached
def with_hook():
    return st.builds(lambda x, h, b: [x, h] if b else [h, x], objects(), hook(), st.booleans())


@gen.cached
def legacy_objects():
    leaf = gen.one_of(st.integers(-99, 99), st.text(alphabet='abc', min_size=1, max_size=4), st.none(), st.booleans(), st.lists(st.integers(0, 9), min_size=1, max_size=3), st.integers(0, 9).map(hooks.PHook))
    return st.recursive(leaf, lambda c: gen.one_of(st.lists(c, min_size=2, max_size=3).map(lambda l: ['m', 1] + l), st.dictionaries(st.text(alphabet='xyz', min_size=1, max_size=2), c, min_size=1, max_size=2)), max_leaves=5)


@gen.cached
def op_trees(depth=2, switching=False):
    """file, path and object are indices, resolved while running"""
    act = st.sampled_from([('switch',)] * (6 if switching else 1) + [('raise',), ('collect',), ('forget',)])
    if depth:
        act = gen.one_of(*[st.tuples(st.just('op'), op_trees(depth - 1, switching))] * (1 if switching else 4), act)
    n = st.integers(0, 11)
    acts = st.lists(act, min_size=1 if depth else 0, max_size=3)
    return st.tuples(st.sampled_from(['dump', 'load', 'dump'] if switching else ['dump', 'load', 'load']), n, n, n, acts, st.sampled_from(['a', 'r+', 'a', 'w']), st.booleans(),
                     st.sampled_from([{}, {}, {'options': {'custom': True}}, {'compression': 'gzip'}]))


@st.composite
def worlds(draw, n, kinds=('name', 'name', 'handle', 'v4', 'v3', 'gone')):
    names = draw(st.permutations(NAMES))[:n]
    pool = [draw(with_hook()) for _ in range(2)]
    files = []
    for nm in names:
        kind = draw(st.sampled_from(kinds))
        if kind == 'v3':
            content = {'/': [1, 'abc', {'k': 4}]}
        elif kind == 'v4':
            content = {draw(st.sampled_from(PATHS)): ['v4', hooks.PHook(3), draw(legacy_objects())]}
        elif kind == 'gone':
            inner = draw(st.lists(gen.one_of(hook(), gen.scalars(nan=False), gen.number_lists(nan=False)), max_size=3))
            wrap = draw(st.sampled_from([lambda v: GoneList(v), lambda v: [1.5, GoneList(v)], lambda v: {'x': GoneDict(enumerate(v)), 'y': v}, lambda v: [GoneDict({'k': GoneList(v)}), 'a'], lambda v: (b'x', {'g': GoneList([1, 2])}, v)]))
            content = {draw(st.sampled_from(PATHS)): wrap(['g', hooks.PHook(4)] + inner)}
        else:
            ps = draw(st.sampled_from([['/p'], ['/'], ['/q/r'], ['/p', '/q/r'], ['/p', '/s', '/q/r'], ['/s'], []]))
            content = {p: pool[i % 2] for i, p in enumerate(ps)}
        files.append((nm, kind, content))
    return files, pool


@st.composite
def nested(draw):
    files, pool = draw(worlds(draw(st.integers(1, 4))))
    return files, pool, [draw(st.lists(op_trees(), min_size=1, max_size=3))], []


@st.composite
def interleaved(draw):
    files, pool = draw(worlds(draw(st.integers(2, 4)), ('name', 'handle', 'name', 'handle', 'v4', 'gone')))
    tasks = draw(st.lists(st.lists(op_trees(1, True), min_size=1, max_size=2), min_size=2, max_size=3))
    return files, pool, tasks, draw(st.lists(st.integers(0, 5), min_size=6, max_size=14))


# ---- execution ---------------------------------------------------------------------------------------
def same(want, got, what):
    if not isinstance(want, Recovered):
        expect(want, got, what=what)
    elif canon(got) != want.canon:
        raise Violation('%s returned %s\n  alone %s' % (what, short(canon(got), 900), short(want.canon, 900)))


def content_kw(p):
    return {'options': {'custom': True}} if p == '/s' else {}


class F:
    pass


class Op:
    def __init__(self, spec):
        self.spec = spec
        self.actions = []
        self.planned = False


class World:
    def __init__(self, case, ctx):
        files, pool, tasks, schedule = case
        self.pool = pool
        self.sched = Scheduler(schedule)
        self.files = []
        self.kept = []
        self.violations = []
        self.overlap = 0
        self.running = 0
        self.ctx = ctx
        d = os.path.join(ctx.scratch, 'w%d' % ctx._n)
        ctx._n += 1
        os.makedirs(d)
        for nm, kind, content in files:
            f = F()
            f.kind, f.name, f.model, f.busy = kind, os.path.join(d, nm), dict(content), 0
            f.touched = False
            f.handle = None
            if kind == 'v3':
                v3file.write(content['/'], f.name)
            elif kind == 'gone':
                for p, x in content.items():
                    dump_gone(x, f.name, p)
                    f.model[p] = Recovered(hickle.load(f.name, p))
            elif kind == 'v4':
                for p, x in content.items():
                    v4file.write(x, f.name, p)
            else:
                h5py.File(f.name, 'w').close()
                for p, x in content.items():
                    hickle.dump(x, f.name, 'r+', p, **content_kw(p))
                if kind == 'handle':
                    f.handle = h5py.File(f.name, 'r+')
            self.files.append(f)

    def action(self, a, op):
        def run():
            if a[0] == 'switch':
                self.sched.point()
            elif a[0] == 'raise':
                op.planned = True
                raise Planned()
            elif a[0] == 'collect':
                gc.collect()
            elif a[0] == 'forget':
                del self.kept[:]
                gc.collect()
            else:
                self.do(a[1])
        return run

    def do(self, spec):
        try:
            self.do_op(spec)
        except Violation as v:      # hickle may wrap what its callbacks raise
            self.violations.append(v)
            raise

    def do_op(self, spec):
        do, i, j, k, acts, mode, keep, kw = spec
        f = self.files[i % len(self.files)]
        if f.kind in ('v3', 'v4', 'gone'):
            do = 'load'
        path = PATHS[j % len(PATHS)]
        if do == 'load' and k and f.model:
            path = sorted(f.model)[j % len(f.model)]
        if do == 'dump' and k % 4 and path in f.model and '/' not in f.model:
            path = ([p for p in PATHS[1:] if p not in f.model] or [path])[0]
        obj = self.pool[k % len(self.pool)]
        op = Op(spec)
        op.actions = [self.action(a, op) for a in acts]
        busy = f.busy
        if self.running:
            self.overlap += 1
        what = '%s %s of %s (%s)%s' % (do, path, os.path.basename(f.name), f.kind, ', file in use' if busy else '')
        occupied = [p for p in f.model if p == path or path == '/' or p == '/' or p.startswith(path + '/') or path.startswith(p + '/')]
        if do == 'dump' and f.kind == 'name' and mode == 'w' and not busy:
            f.model.clear()
            f.touched = False
            occupied = []
        if do == 'dump' and occupied and path not in f.model and path != '/':
            return                # inside another hickle, not claimed
        if do == 'dump' and path == '/' and not occupied and f.touched:
            return                # empty group of a failed dump may be in the way
        f.touched = f.touched or do == 'dump'
        has = path in f.model
        want = f.model.get(path)
        hooks.stack().append(op)
        f.busy += 1
        self.running += 1
        err = r = None
        try:
            if do == 'dump':
                hickle.dump(obj, f.handle or f.name, mode, path, **kw)
            else:
                r = hickle.load(f.handle or f.name, path)
        except Exception as e:
            err = e
            if keep:
                self.kept.append(e)
        finally:
            self.running -= 1
            f.busy -= 1
            hooks.stack().pop()
        if busy:
            if f.kind == 'v3':
                return
            if err is None:
                raise Violation('%s was not rejected' % what)
            self.ctx.label('rejected')
            return
        if op.planned:
            if err is None:
                raise Violation('%s did not report the failure of an element' % what)
            self.ctx.label('failed')
            return
        if do == 'dump':
            if occupied:
                if err is None:
                    raise Violation('%s: path is occupied but dump succeeded' % what)
                return
            if err is not None:
                raise Violation('%s raised %s' % (what, short(err, 700))) from err
            f.model[path] = obj
        elif not has:
            if err is None:
                raise Violation('%s: nothing there but returned %s' % (what, short(r)))
        else:
            if err is not None:
                raise Violation('%s raised %s' % (what, short(err, 700))) from err
            same(want, r, what)

    def finish(self):
        for f in self.files:
            for p, x in f.model.items():
                try:
                    r = hickle.load(f.handle or f.name, p)
                except Exception as e:
                    raise Violation('afterwards load %s of %s raised %s' % (p, f.name, short(e, 700))) from e
                same(x, r, 'afterwards %s of %s' % (p, os.path.basename(f.name)))
            if f.kind in ('name', 'handle') and '/' not in f.model:
                try:
                    hickle.dump([7, 'end'], f.handle or f.name, 'r+', '/end')
                    r = hickle.load(f.handle or f.name, '/end')
                except Exception as e:
                    raise Violation('afterwards dump to %s raised %s' % (f.name, short(e, 700))) from e
                expect([7, 'end'], r)


def check(case, ctx):
    before = tg.open_files()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        w = World(case, ctx)
        try:
            try:
                w.sched.run([lambda t=t: [w.do(s) for s in t] for t in case[2]])
            except Violation:
                pass
            if w.violations:
                raise w.violations[0]
            w.finish()
        finally:
            for f in w.files:
                if f.handle is not None:
                    if not f.handle:
                        raise Violation('handle of the caller was closed')
                    f.handle.close()
            gc.enable()
    n = tg.open_files()
    if n != before:
        raise Violation('%d HDF5 files left open' % (n - before))
    ctx.nontrivial(w.overlap > 0, key=short(case, 4000))
    if w.sched.switches:
        ctx.label('interleaved')
    if w.overlap:
        ctx.label('overlapping')


TESTS = [Test('nested', nested, check, 1560, 25000), Test('interleaved', interleaved, check, 1296, 25000)]
