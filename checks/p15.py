import contextlib
import io
import os
import pickle
import shutil

import h5py
import hickle
import numpy as np
from hypothesis import strategies as st

from hv import aeq, gen, pgen
from hv import targets as tg
from hv.core import Test, Violation, short
from hv.io import expect

TECHNIQUE = 'property-based testing (hypothesis) with structured fault injection: valid files of generated objects are damaged at generated nodes; load has to raise, all else has to stay as it was'
LEVEL = 'exploration'
RULE = 'the damage applies to the generated file (damage), the call is rejected for the generated reason (calls)'
ASSUMPTIONS = ['damage of raw numbers inside HDF5 datasets can not be detected and is not generated', 'a missing list item is not detected', 'a type entry naming a missing class is recovered, not rejected (P14)']

DAMAGE = ['no_version', 'no_python', 'empty_version', 'bad_version', 'no_data', 'no_table', 'table_dataset', 'bad_entry', 'type_stale', 'type_wrong', 'type_garbage',
          'type_deleted', 'dangling', 'truncate', 'v3_class', 'v3_version', 'no_key_idx', 'dup_key_idx', 'bad_reference']


@gen.cached
@st.composite
def cases(draw):
    case = {'damage': draw(st.sampled_from(DAMAGE)), 'path': draw(st.sampled_from(['/', '/a', '/a/b c'])), 'node': draw(st.integers(0, 30)),
            'kind': draw(st.sampled_from(tg.LOAD_KINDS)), 'cut': draw(st.floats(0.0, 0.999)), 'junk': draw(st.sampled_from([b'\xff', b'.', b'garbage', b'0', b'\x80\x04'])), 'other': draw(gen.trees())}
    if case['damage'] in ('dangling', 'bad_reference'):
        shared = draw(st.lists(gen.trees(), min_size=1, max_size=2))
        case['obj'] = draw(st.builds(lambda m: {'p': shared, 'q': [shared, m]}, gen.trees()))
    elif case['damage'] in ('no_key_idx', 'dup_key_idx'):
        case['obj'] = draw(gen.dicts(gen.trees(), max_size=4))
    else:
        case['obj'] = draw(gen.one_of(gen.trees(), pgen.mixed(5)))
    return case


def nodes(g):
    out = [g['data']]
    if isinstance(g['data'], h5py.Group):
        g['data'].visititems(lambda n, o: out.append(o))
    return out


def is_ref(o):
    return isinstance(o, h5py.Dataset) and h5py.check_ref_dtype(o.dtype) is not None


def holds_empty_tuple(f, o):
    """known finding: hickle uses () as marker of ignored data"""
    if o.attrs['key_base_type'] in (b'key_value', 'key_value'):
        while is_ref(o):
            o = f[o[()]]
        if not isinstance(o, h5py.Group) or 'data1' not in o:
            return False
        o = o['data1']
    while is_ref(o):
        o = f[o[()]]
    return isinstance(o, h5py.Dataset) and o.shape is None and 'type' in o.attrs and pickle.loads(f[o.attrs['type']][()]) is tuple


def damage(case, fn):
    """applies the damage; False if the file has no place for it"""
    d, n = case['damage'], case['node']
    if d == 'truncate':
        size = os.path.getsize(fn)
        os.truncate(fn, int(size * case['cut']))
        return True
    with h5py.File(fn, 'r+') as f:
        g = f[case['path']]
        every = nodes(g)
        typed = [o for o in every if 'type' in o.attrs]
        if d == 'no_version':
            del g.attrs['HICKLE_VERSION']
        elif d == 'no_python':
            del g.attrs['HICKLE_PYTHON_VERSION']
        elif d == 'empty_version':
            g.attrs['HICKLE_VERSION'] = ''
        elif d == 'bad_version':
            g.attrs['HICKLE_VERSION'] = ['x.1', 'hickle', '.5', 'v5.0'][n % 4]
        elif d == 'no_data':
            del g['data']
        elif d == 'table_dataset':
            del g['hickle_types_table']
            g['hickle_types_table'] = 5
        elif d == 'v3_class':
            # claims to be a file of hickle 3, but not in the right way
            del g.attrs['HICKLE_VERSION'], g.attrs['HICKLE_PYTHON_VERSION']
            f.attrs['CLASS'], f.attrs['VERSION'], f.attrs['PYTHON_VERSION'] = 'other', '3.4.9', '3.6'
        elif d == 'v3_version':
            del g.attrs['HICKLE_VERSION'], g.attrs['HICKLE_PYTHON_VERSION']
            f.attrs['CLASS'], f.attrs['VERSION'], f.attrs['PYTHON_VERSION'] = 'hickle', ['2.1', '5.0', 'x'][n % 3], '3.6'
        elif d in ('no_key_idx', 'dup_key_idx'):
            keyed = [o for o in every if 'key_idx' in o.attrs]
            if d == 'no_key_idx':
                if not keyed:
                    return False
                o = keyed[n % len(keyed)]
                case['empty tuple'] = holds_empty_tuple(f, o)
                del o.attrs['key_idx']
            else:
                keyed = [o for o in keyed if o.attrs['key_idx'] == 1]
                if not keyed:
                    return False
                keyed[n % len(keyed)].attrs['key_idx'] = 0
        elif d in ('dangling', 'bad_reference'):
            refs = [o for o in every if is_ref(o)]
            if not refs:
                return False
            o = refs[n % len(refs)]
            if d == 'bad_reference':
                o[()] = h5py.Reference()
            else:
                t = f[o[()]]
                p, name = t.parent, t.name.rsplit('/', 1)[-1]
                del p[name]
        else:
            if not typed:
                return False
            o = typed[n % len(typed)]
            e = f[o.attrs['type']]
            if d == 'no_table':
                if case['kind'] == 'h5file_rw':
                    return False
                del g['hickle_types_table']
            elif d == 'bad_entry':
                b = case['junk'] * e.size
                e[...] = np.frombuffer(b[:e.size], dtype='S1').reshape(e.shape)
            elif d == 'type_stale':
                # HDF5 does not tell references to deleted objects, only null references
                o.attrs.create('type', h5py.Reference(), dtype=h5py.ref_dtype)
            elif d == 'type_wrong':
                o.attrs['type'] = f.ref
            elif d == 'type_garbage':
                o.attrs['type'] = np.bytes_(case['junk'] + b'?')
            elif d == 'type_deleted':
                if isinstance(o, h5py.Dataset) and o.shape is not None:
                    try:
                        pickle.loads(o[()])
                        return False      # data happen to be a valid pickle string
                    except Exception:
                        pass
                del o.attrs['type']
    return True


def check(case, ctx):
    fn = ctx.path()
    x, path = case['obj'], case['path']
    hickle.dump(x, fn, mode='w', path=path)
    hickle.dump(case['other'], fn, mode='r+', path='/other/place')
    with h5py.File(fn, 'r+') as f:
        f['plain/values'] = [1, 2]
    if not damage(case, fn):
        ctx.nontrivial(False)
        return
    ctx.nontrivial(True)
    ctx.label(case['damage'])
    raw = open(fn, 'rb').read()
    base = path.strip('/') if case['kind'] == 'h5group' else ''
    with contextlib.ExitStack() as es:
        try:
            t = es.enter_context(tg.load_target(case['kind'], fn, base))
        except Exception:
            t = None       # h5py itself refuses to open it
        if t is not None:
            try:
                y = hickle.load(t.obj, **({} if base else {'path': path}), **t.kw)
            except Exception as e:
                e.__traceback__ = None
                del e
            else:
                if case['damage'] == 'no_key_idx' and case.get('empty tuple') and ctx.known('P15-a'):
                    return
                raise Violation('damaged file (%s) loaded as %s' % (case['damage'], short(y)))
            if not t.alive():
                raise Violation('handle of the caller closed')
            if case['damage'] != 'truncate' and not base:
                expect(case['other'], hickle.load(t.obj, path='/other/place', **t.kw), what='intact neighbour through the same handle')
    if tg.open_files() or tg.open_fds(fn):
        raise Violation('file left open')
    if case['kind'] != 'h5file_rw' and open(fn, 'rb').read() != raw:
        raise Violation('failed load changed the file')
    if case['damage'] != 'truncate':
        expect(case['other'], hickle.load(fn, path='/other/place'), what='intact neighbour')
    for p in ('/plain', '/plain/values', '/nowhere', '/other', '/other/place/data', '/other/place/hickle_types_table', '/other/place/data/none'):
        try:
            y = hickle.load(fn, path=p)
        except Exception:
            pass
        else:
            raise Violation('path %s which is no hickle loaded as %s' % (p, short(y)))


# ---- calls which have to be refused ---------------------------------------------------------------------------------
LOADS = ['missing', 'directory', 'empty', 'noise', 'text', 'closed_h5', 'closed_group', 'closed_file', 'closed_bytesio', 'writeonly', 'pipe', 'number', 'none', 'emptytuple', 'baddict',
         'badfilename', 'plain', 'object']
DUMPS = ['mode_z', 'mode_empty', 'mode_r_name', 'mode_x_exists', 'mode_rp_missing', 'readonly_file', 'closed_h5', 'closed_group', 'closed_file', 'closed_bytesio', 'number', 'none', 'object',
         'badfilename', 'readonly_h5', 'readonly_group', 'nodir', 'file_mode_z', 'occupied', 'dataset', 'directory']


class Opaque(object):
    pass


@gen.cached
@st.composite
def calls(draw):
    return {'op': draw(st.sampled_from(['load', 'dump', 'dump'])), 'n': draw(st.integers(0, 1000)), 'noise': draw(st.binary(max_size=3000)), 'obj': draw(gen.trees()), 'keep': draw(gen.trees()),
            'path': draw(st.sampled_from(['/', '/a', 'b/c', ''])), 'mode': draw(st.sampled_from(['w', 'r+', 'a', 'w+', 'x', 'wb']))}


def refused(what, call):
    try:
        y = call()
    except (Exception, SystemExit) as e:
        e.__traceback__ = None
        return
    raise Violation('%s accepted: %s' % (what, short(y)))


def reject(case, ctx):
    fn = ctx.path()
    d = os.path.join(ctx.scratch, 'dir')
    os.makedirs(d, exist_ok=True)
    hickle.dump(case['keep'], fn, mode='w', path='/keep')
    raw = open(fn, 'rb').read()
    path = case['path']
    ctx.nontrivial(True)
    if case['op'] == 'load':
        k = LOADS[case['n'] % len(LOADS)]
    else:
        k = DUMPS[case['n'] % len(DUMPS)]
    ctx.label(case['op'] + ' ' + k)
    other = fn + '.other'
    if os.path.exists(other):
        os.unlink(other)
    kw, mode, handle = {}, case['mode'], None
    with contextlib.ExitStack() as es:
        if k in ('closed_h5', 'closed_group'):
            with h5py.File(fn, 'r+') as f:
                obj = f if k == 'closed_h5' else f['keep']
        elif k in ('closed_file', 'closed_bytesio'):
            if k == 'closed_file':
                with open(fn, 'r+b') as obj:
                    pass
            else:
                obj = io.BytesIO(raw)
                obj.close()
        elif k in ('number', 'none', 'object', 'emptytuple'):
            obj = {'number': 5, 'none': None, 'object': Opaque(), 'emptytuple': ()}[k]
        elif k == 'baddict':
            obj = {'nofile': 1}
        elif k == 'badfilename':
            obj = handle = es.enter_context(open(fn, 'r+b'))
            kw = {'filename': [5, ['x'], ()][case['n'] % 3]}
            mode = 'r+'
        elif k == 'directory':
            obj, mode = d, mode if mode != 'x' else 'w'
        elif case['op'] == 'load':
            if k == 'missing':
                obj = other
            elif k == 'plain':
                with h5py.File(other, 'w') as f:
                    f['data'] = [1, 2, 3]
                    f.create_group('a')['data'] = 1
                obj = other
            elif k in ('empty', 'noise', 'text'):
                with open(other, 'wb') as f:
                    f.write({'empty': b'', 'noise': case['noise'], 'text': b'this is not a hickle\n'}[k])
                obj = other
                if case['n'] % 2:
                    obj = handle = es.enter_context(open(other, 'rb'))
            elif k == 'writeonly':
                obj = handle = es.enter_context(open(fn, 'ab'))
            elif k == 'pipe':
                r, w = os.pipe()
                es.enter_context(os.fdopen(w, 'wb'))
                obj = handle = es.enter_context(os.fdopen(r, 'rb'))
        else:
            if k in ('mode_z', 'mode_empty'):
                obj, mode = fn, {'mode_z': ['z', 'q+', 'rx', 'wr', 'zb'][case['n'] % 5], 'mode_empty': ''}[k]
            elif k == 'mode_r_name':
                obj, mode = fn, 'r'
            elif k == 'mode_x_exists':
                obj, mode = fn, ['x', 'w-', 'x+'][case['n'] % 3]
            elif k == 'mode_rp_missing':
                obj, mode = other, 'r+'
            elif k == 'readonly_file':
                obj = handle = es.enter_context(open(fn, 'rb'))
            elif k in ('readonly_h5', 'readonly_group'):
                f = es.enter_context(h5py.File(fn, 'r'))
                obj = handle = f if k == 'readonly_h5' else f['keep']
            elif k == 'nodir':
                obj = os.path.join(d, 'nowhere', 'f.hkl')
            elif k == 'file_mode_z':
                obj = handle = es.enter_context(open(fn, 'r+b'))
                mode = ['z', 'q', 'b'][case['n'] % 3]
            elif k == 'occupied':
                obj, mode, path = fn, 'r+', '/keep'
            elif k == 'dataset':
                with h5py.File(fn, 'r+') as f:
                    f['values'] = [1, 2]
                raw = open(fn, 'rb').read()
                obj, mode, path = fn, 'r+', '/values'
        if case['op'] == 'load':
            refused('load of %s' % k, lambda: hickle.load(obj, path=path, **kw))
        else:
            refused('dump to %s with mode %r' % (k, mode), lambda: hickle.dump(case['obj'], obj, mode=mode, path=path, **kw))
        if handle is not None and not tg.T(None, {}, handle, '').alive():
            raise Violation('handle of the caller closed')
    if tg.open_files() or tg.open_fds(fn):
        raise Violation('file left open after rejected %s' % case['op'])
    if k in ('occupied', 'dataset'):
        if k == 'dataset':
            with h5py.File(fn, 'r') as f:
                if f['values'][()].tolist() != [1, 2] or len(f['values'].attrs):
                    raise Violation('dataset changed by rejected dump')
    elif open(fn, 'rb').read() != raw:
        raise Violation('rejected %s (%s) changed the file' % (case['op'], k))
    if os.path.exists(other) and k in ('missing', 'mode_rp_missing'):
        raise Violation('rejected call created a file')
    if os.listdir(d):
        raise Violation('rejected call left files')
    expect(case['keep'], hickle.load(fn, path='/keep'), what='after rejected %s' % k)


# shows that the known finding is still there
KNOWN = {'damage': 'no_key_idx', 'path': '/', 'node': 0, 'kind': 'str', 'cut': 0.0, 'junk': b'.', 'other': None, 'obj': {'key': ()}}

TESTS = [Test('known', lambda: st.builds(lambda: dict(KNOWN)), check, 8, 8), Test('damage', cases, check, 6400, 100000), Test('calls', calls, reject, 2400, 40000)]
