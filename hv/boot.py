"""Makes the code under test and hypothesis importable.

hickle is always imported from /repo (its current working tree); hypothesis is
pure python + one extension, taken from the offline wheelhouse."""
import glob
import os
import sys
import zipfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HV_REPO', '/repo')
WHEELS = '/opt/veriftools/wheels'
PYVENV = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def hypothesis_path():
    """puts hypothesis on sys.path (appended last: never shadows /opt/venv)"""
    deps = os.path.join(ROOT, '.deps')
    if not os.path.isdir(os.path.join(deps, 'hypothesis')):
        wheels = []
        for pat in ('hypothesis-*cp312*.whl', 'sortedcontainers-*.whl', 'attrs-*.whl'):
            found = sorted(glob.glob(os.path.join(WHEELS, pat)))
            if not found and pat.startswith('hypothesis'):
                found = sorted(glob.glob(os.path.join(WHEELS, 'hypothesis-*.whl')))
            wheels += found[-1:]
        try:
            tmp = deps + '.%d' % os.getpid()
            for w in wheels:
                with zipfile.ZipFile(w) as z:
                    z.extractall(tmp)
            try:
                os.rename(tmp, deps)
            except OSError:            # somebody else was faster
                import shutil
                shutil.rmtree(tmp, ignore_errors=True)
        except OSError:
            pass
    for p in (deps, PYVENV):
        if os.path.isdir(p) and p not in sys.path:
            sys.path.append(p)


def code_under_test():
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    import hickle
    where = os.path.realpath(hickle.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('hickle imported from %s, not from %s' % (where, REPO))
    return hickle
