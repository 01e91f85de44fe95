import copy
import gc
import io
import os
import pickle
import sys
import time
import warnings

import h5py
import hickle
import numpy as np
import scipy.sparse as sp
from astropy.constants import Constant
from hypothesis import strategies as st

from hv import aeq, agen, eq, gen, h5snap, ngen, pgen, sgen
from hv import targets as tg
from hv.core import Test, Violation, short
from hv.io import expect

TECHNIQUE = 'property-based testing (hypothesis): generated objects and sequences of dumps and loads with before/after snapshots of object, file bytes and interpreter state; idempotence relation load(dump(load(x))) == load(x)'
LEVEL = 'exploration'
RULE = 'the object holds at least one container with items or array'
ASSUMPTIONS = ['a file handle open for writing is compared by content, not by bytes, since h5py itself updates its header']


def globals_state():
    return {
        'gc': gc.isenabled(), 'gc threshold': gc.get_threshold(), 'warnings': [repr(f) for f in warnings.filters], 'cwd': os.getcwd(),
        'recursion': sys.getrecursionlimit(), 'errstate': dict(np.geterr()), 'path': list(sys.path), 'environ': dict(os.environ),
        'showwarning': warnings.showwarning, 'stdout': sys.stdout, 'printopts': str(np.get_printoptions()),
    }


def diff_state(a, b, what):
    for k in a:
        if a[k] != b[k]:
            raise Violation('%s changed %s of the interpreter: %s -> %s' % (what, k, short(a[k], 200), short(b[k], 200)))


def fingerprint(x):
    """identity and content of every node of x"""
    out = []
    seen = set()
    stack = [x]
    while stack:
        o = stack.pop()
        if isinstance(o, np.ndarray):
            out.append((id(o), type(o), o.dtype.str, o.shape, o.strides, o.flags.writeable, repr(o.view(np.ndarray).tolist()) if o.dtype.kind == 'V' else o.view(np.ndarray).tobytes() if o.dtype != object else tuple(map(id, o.ravel().tolist())) if o.ndim else 0))
            if isinstance(o, np.ma.MaskedArray):
                out.append(repr(np.ma.getmaskarray(o).tolist()))
            if o.dtype == object and o.ndim:
                stack.extend(o.ravel().tolist())
            continue
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, dict):
            out.append((id(o), type(o), [(id(k), id(v)) for k, v in o.items()]))
            stack.extend(o.keys())
            stack.extend(o.values())
        elif isinstance(o, (list, tuple, set, frozenset)):
            out.append((id(o), type(o), [id(i) for i in o]))
            stack.extend(o)
        elif sp.issparse(o):
            out.append((id(o), type(o), sorted(o.__dict__), o.shape))
            stack.extend(getattr(o, 'coords', ()))
            for n in ('data', 'indices', 'indptr'):
                if isinstance(getattr(o, n, None), np.ndarray):
                    stack.append(getattr(o, n))
        else:
            out.append((id(o), type(o), repr(o)))
            if hasattr(o, '__dict__') and type(o).__module__ == 'hv.userlib' and not isinstance(o, type):
                stack.append(o.__dict__)
    return out


def mutables(x, acc):
    if isinstance(x, (list, tuple, set)):
        if not isinstance(x, tuple):
            acc[id(x)] = x
        for i in x:
            mutables(i, acc)
    elif isinstance(x, dict):
        acc[id(x)] = x
        for k, v in x.items():
            mutables(k, acc)
            mutables(v, acc)
    elif isinstance(x, np.ndarray) and x is not np.ma.masked and not isinstance(x, Constant):     # astropy keeps constants in a registry
        acc[id(x)] = x
        if x.dtype == object and x.ndim:
            for i in x.ravel().tolist():
                mutables(i, acc)
    elif sp.issparse(x):
        acc[id(x)] = x
    return acc


def independent(a, b, what):
    ma, mb = mutables(a, {}), mutables(b, {})
    both = set(ma) & set(mb)
    if both:
        raise Violation('%s share the object %s' % (what, short(ma[both.pop()], 200)))
    aa = [x for x in ma.values() if isinstance(x, np.ndarray) and x.size][:6]
    bb = [x for x in mb.values() if isinstance(x, np.ndarray) and x.size][:6]
    for x in aa:
        for y in bb:
            if np.may_share_memory(x.view(np.ndarray), y.view(np.ndarray)):
                raise Violation('%s share memory of the array %s' % (what, short(x, 200)))


@st.composite
def cases(draw):
    return {
        'obj': draw(gen.one_of(pgen.bundles(), pgen.bundles(), pgen.mixed(6), gen.trees(max_leaves=8), ngen.anything(), agen.anything(), sgen.sparse())),
        'gc': draw(st.booleans()),
        'errstate': draw(st.booleans()),
        'dump': draw(st.sampled_from(tg.KINDS)),
        'loads': draw(st.lists(st.sampled_from(tg.LOAD_KINDS), min_size=2, max_size=3)),
        'kw': draw(ngen.compressions()),
        'options': draw(st.sampled_from([None, {}, {'custom': False}])),
        'filter': draw(st.sampled_from(['ignore', 'always', 'default'])),
    }


def check(case, ctx):
    x = case['obj']
    ctx.nontrivial(gen.size(x) > 1 or isinstance(x, np.ndarray) and x.size)
    if not case['gc']:
        gc.disable()
    try:
        with warnings.catch_warnings(record=True):
            warnings.simplefilter(case['filter'])
            with np.errstate(all='ignore' if case['errstate'] else 'warn'):
                _check(case, ctx, x)
    finally:
        gc.enable()


def _check(case, ctx, x):
    fn = ctx.path()
    finger = fingerprint(x)
    kw = dict(case['kw'])
    opts = None if case['options'] is None else dict(case['options'])
    with tg.dump_target(case['dump'], fn, 'g') as t:
        state = globals_state()
        okw = {} if opts is None else {'options': opts}
        try:
            hickle.dump(x, t.obj, 'w', **kw, **okw, **t.kw)
        except Exception as e:
            raise Violation('dump raised %r' % e) from e
        diff_state(state, globals_state(), 'dump')
    if opts != case['options'] or kw != case['kw']:
        raise Violation('dump modified the arguments passed')
    if fingerprint(x) != finger:
        raise Violation('dump modified the dumped object, now %s' % short(x))
    path = 'g' if case['dump'] == 'h5group' else '/'
    with open(fn, 'rb') as f:
        raw = f.read()
    with h5py.File(fn, 'r') as f:
        snap = h5snap.snapshot(f)
    os.utime(fn, (1000000000, 1000000000))
    results = []
    for k in case['loads']:
        with tg.load_target(k, fn, path if path != '/' else '') as t:
            state = globals_state()
            try:
                y = hickle.load(t.obj, **({} if k == 'h5group' else {'path': path}), **t.kw)
            except Exception as e:
                raise Violation('load raised %s' % short(e, 500)) from e
            diff_state(state, globals_state(), 'load')
            if k == 'bytesio' and t.handle.getvalue() != raw:
                raise Violation('load modified the file-like object')
        if k == 'h5file_rw':
            with h5py.File(fn, 'r') as f:
                if h5snap.snapshot(f) != snap:
                    raise Violation('load through a writable handle modified the file')
            with open(fn, 'wb') as f:
                f.write(raw)
            os.utime(fn, (1000000000, 1000000000))
        with open(fn, 'rb') as f:
            if f.read() != raw:
                raise Violation('load through %s modified the file' % k)
        if os.stat(fn).st_mtime != 1000000000:
            raise Violation('load through %s wrote to the file' % k)
        for o in results:
            independent(o, y, 'two loads of one file')
        independent(x, y, 'dumped and loaded object')
        results.append(y)
        expect(x, y)
    for o in results[1:]:
        expect(results[0], o, what='second load differs')
    # second generation
    buf = io.BytesIO()
    y = results[0]
    try:
        hickle.dump(y, buf)
        z = hickle.load(buf)
    except Exception as e:
        raise Violation('loaded object %s: second dump/load raised %s' % (short(y), short(e, 500))) from e
    expect(y, z, what='second generation differs')
    expect(x, z, what='second generation differs from the original')


TESTS = [Test('effects', cases, check, 5104, 120000)]
