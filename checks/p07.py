import os
import warnings

import h5py
import hickle
from hypothesis import strategies as st

from hv import aeq, eq, gen, ngen, pgen
from hv import targets as tg
from hv.core import Test, Violation, short
from hv.io import expect

TECHNIQUE = 'property-based testing (hypothesis): generated object, path spelling, kind of dump target and kinds of load view; round-trip oracle plus an account of open HDF5 files, descriptors and caller handles before and after every call'
LEVEL = 'exploration'
RULE = 'dump and load go through different kinds of target, or one of the two calls fails'
ASSUMPTIONS = ['a file-like object is truncated and flushed by its owner, not by hickle', 'paths of plain group names']

NAMES = ['a', 'b', 'data', 'x y', 'é', '0', 'hickle_types_table', 'group.name', ' lead', 'trail ', '..', 'A', '%s', '{}', 'x\\y', '"a"', 'data0', "b'x'"]


@st.composite
def cases(draw):
    parts = draw(st.lists(st.sampled_from(NAMES), min_size=0, max_size=3))
    cut = draw(st.integers(0, len(parts)))
    return {
        'obj': draw(gen.one_of(gen.trees(max_leaves=5, nan=False), pgen.bundles(), ngen.arrays(ngen.number_dtypes(), 2))),
        'dump': draw(st.sampled_from(tg.KINDS)),
        'loads': draw(st.lists(st.sampled_from(tg.LOAD_KINDS), min_size=1, max_size=4)),
        'parts': parts, 'cut': cut,
        'lead': draw(st.booleans()), 'trail': draw(st.booleans()), 'lead2': draw(st.booleans()), 'trail2': draw(st.booleans()),
        'fail': draw(st.sampled_from(['', '', '', 'pickle', 'exists', 'missing'])),
        'default': draw(st.booleans()),
        'file': draw(st.sampled_from(['', '', 'plain', 'two.dots.hkl', 'x y.h5', 'é∀.hdf5', '.hidden', 'a%20b', "it's", 'bak~', 'n' * 200])),
        'cwd': draw(st.booleans()), 'safe': draw(st.sampled_from([None, None, True, False])), 'pos': draw(st.integers(0, 9999)),
        'link': draw(st.sampled_from(['', '', '', '', 'soft', 'hard', 'external', 'move'])),
    }


class Bomb(object):
    def __reduce__(self):
        raise RuntimeError('bomb')

    def __repr__(self):
        return 'Bomb()'


def spell(parts, lead, trail, default):
    """keyword arguments for a path spelling"""
    if not parts:
        return {} if default else {'path': '/' if lead else ''}
    return {'path': ('/' if lead else '') + '/'.join(parts) + ('/' if trail else '')}


def account(filename):
    return tg.open_files(), tg.open_fds(filename)


def verify(t, before, filename, what):
    after = account(filename)
    if after != before:
        raise Violation('%s through %s: (open HDF5 files, descriptors of the file) were %s before and are %s after' % (what, t.kind, before, after))
    if not t.alive():
        raise Violation('%s closed the handle passed in as %s' % (what, t.kind))
    if not t.untouched():
        raise Violation('%s changed the class of the handle passed in as %s to %s' % (what, t.kind, type(t.handle)))


def use(t, filename):
    """the handle of the caller still works"""
    h = t.handle
    if isinstance(h, h5py.Group):
        if h.file.mode != 'r':
            h.attrs['__probe'] = 1
            del h.attrs['__probe']
        list(h.keys())
    elif h is not None:
        h.seek(0)
        h.read(8)
        h.seek(0)


def link(fn, parts, how):
    """another way to the group of the hickle"""
    path = '/' + '/'.join(parts)
    if how == 'external':
        other = os.path.join(os.path.dirname(fn), 'other.h5')
        with h5py.File(other, 'w') as f:
            f['linked'] = h5py.ExternalLink(os.path.abspath(fn), path)
        return other, ['linked']
    with h5py.File(fn, 'r+') as f:
        if how == 'soft':
            f['link to it'] = h5py.SoftLink(path)
        elif how == 'hard':
            f['link to it'] = f[path]
        else:
            f.move(path, 'link to it')
    return fn, ['link to it']


def held():
    """objects HDF5 keeps files open for, which includes files opened by following a link"""
    return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE | h5py.h5f.OBJ_GROUP | h5py.h5f.OBJ_DATASET | h5py.h5f.OBJ_ATTR)


def check(case, ctx):
    here = os.getcwd()
    before = held()
    try:
        run(case, ctx)
    finally:
        os.chdir(here)
    if held() > before:
        raise Violation('%d objects of HDF5 files left open' % (held() - before))


def run(case, ctx):
    fn = ctx.path()
    if case['file']:
        fn = os.path.join(os.path.dirname(fn), case['file'])
    if case['cwd']:
        os.chdir(os.path.dirname(fn))
        fn = os.path.basename(fn)
    x = case['obj']
    parts = case['parts']
    cut = case['cut']
    ctx.nontrivial(case['fail'] or any(k != case['dump'] for k in case['loads']))
    dk = case['dump']
    if dk == 'h5group' and not cut:
        dk = 'h5file'
    base = '/'.join(parts[:cut]) if dk == 'h5group' else ''
    rel = parts[cut:] if dk == 'h5group' else parts
    pkw = spell(rel, case['lead'], case['trail'], case['default'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with tg.dump_target(dk, fn, base) as t:
            before = account(fn)
            if case['fail'] == 'pickle':
                try:
                    hickle.dump([x, Bomb()], t.obj, 'w', **pkw, **t.kw)
                except RuntimeError:
                    pass
                except Exception as e:
                    raise Violation('error of dumped object reported as %r' % e)
                else:
                    raise Violation('dump of an object which can not be pickled did not fail')
                verify(t, before, fn, 'failing dump')
                use(t, fn)
            try:
                hickle.dump(x, t.obj, 'w', **pkw, **t.kw)
            except Exception as e:
                raise Violation('dump to %s %s raised %r' % (dk, pkw, e)) from e
            verify(t, before, fn, 'dump')
            use(t, fn)
            if case['fail'] == 'exists':
                try:
                    hickle.dump(x, t.obj, 'a', **pkw, **t.kw)
                except Exception:
                    pass
                else:
                    raise Violation('dump to path which already exists did not fail')
                verify(t, before, fn, 'failing dump')
                use(t, fn)
        if case['link'] and parts:
            fn, parts = link(fn, parts, case['link'])
            cut = min(cut, 1)
        for i, lk in enumerate(case['loads']):
            if lk == 'h5group' and not cut:
                lk = 'h5file'
            if case['link'] == 'external' and fn.endswith('other.h5') and lk not in ('str', 'path', 'h5file', 'h5group', 'h5file_rw', 'str+name'):
                # HDF5 opens the other file by means of the file-like object, too
                lk = 'str'
            lbase = '/'.join(parts[:cut]) if lk == 'h5group' else ''
            lrel = parts[cut:] if lk == 'h5group' else parts
            lkw = spell(lrel, case['lead2'] ^ bool(i & 1), case['trail2'], not case['default'])
            if case['safe'] is not None:
                lkw['safe'] = case['safe']
            with tg.load_target(lk, fn, lbase) as t:
                before = account(fn)
                if case['fail'] == 'missing':
                    try:
                        r = hickle.load(t.obj, path='/no/such/path', **t.kw)
                    except Exception:
                        pass
                    else:
                        raise Violation('load of a missing path returned %s' % short(r))
                    verify(t, before, fn, 'failing load')
                    use(t, fn)
                for again in range(2):
                    if hasattr(t.handle, 'seek'):
                        # where the caller left the file does not matter
                        t.handle.seek(case['pos'])
                    try:
                        y = hickle.load(t.obj, **lkw, **t.kw)
                    except Exception as e:
                        raise Violation('dumped through %s %s, load through %s %s raised %s' % (dk, pkw, lk, lkw, short(e, 800))) from e
                    verify(t, before, fn, 'load')
                    use(t, fn)
                    expect(x, y, what='dumped through %s %s, loaded through %s %s' % (dk, pkw, lk, lkw))


TESTS = [Test('targets', cases, check, 6000, 120000)]
