"""dump / load helpers turning every error of the code under test into a Violation"""
import io
import warnings

import hickle

from . import eq
from .core import Violation, short


def dump(obj, target, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            hickle.dump(obj, target, **kw)
        except Exception as e:
            raise Violation('dump raised %r\n  object: %s\n  arguments: %s' % (e, short(obj), short(kw))) from e


def load(target, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return hickle.load(target, **kw)
        except Exception as e:
            raise Violation('load raised %s\n  arguments: %s' % (short(e, 1500), short(kw))) from e


def roundtrip(obj, target=None, **kw):
    target = io.BytesIO() if target is None else target
    dump(obj, target, **kw)
    return load(target, **({'path': kw['path']} if 'path' in kw else {}))


def expect(a, b, cmp=eq.same, what='loaded object differs'):
    try:
        cmp(a, b)
    except eq.Diff as d:
        raise Violation('%s %s' % (what, d)) from d
    except Exception as e:
        raise Violation('%s: comparison raised %r\n  dumped %s\n  loaded %s' % (what, e, short(a), short(b))) from e
