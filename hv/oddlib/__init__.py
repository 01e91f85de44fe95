"""Classes of modules which do not come from an ordinary source file: a zip archive, a namespace package, a module created at
runtime with or without specification or file name."""
import importlib
import os
import sys
import types

_here = os.path.dirname(os.path.abspath(__file__))
for _p in (_here, os.path.join(_here, 'odd.zip')):
    if _p not in sys.path:
        sys.path.append(_p)
MODULES = [importlib.import_module(n) for n in ('hv_zmod', 'hv_zpkg', 'hv_zpkg.sub', 'hv_ns.deep.mod')]
_src = open(os.path.join(_here, 'hv_ns', 'deep', 'mod.py')).read()


def _runtime(name, spec=None, **attrs):
    m = types.ModuleType(name)
    m.__spec__ = spec
    m.__dict__.update(attrs)
    exec(_src, m.__dict__)
    sys.modules[name] = m
    return m


MODULES += [_runtime('hv_rt_plain'), _runtime('hv_rt_file', __file__='<string>'), _runtime('hv_rt_dotted', __path__=[]), _runtime('hv_rt_dotted.sub'), _runtime('hv_rt_spec', importlib.machinery.ModuleSpec('hv_rt_spec', None)),
            _runtime('hv_rt_origin', importlib.machinery.ModuleSpec('hv_rt_origin', None, origin='nowhere'))]
ODD = [m.Odd for m in MODULES]
LISTS = [m.OddList for m in MODULES]
DICTS = [m.OddDict for m in MODULES]
