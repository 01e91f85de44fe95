"""profile one test of one check: prof.py P07 targets 60"""
import cProfile, os, pstats, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hv import boot, core
boot.hypothesis_path(); boot.code_under_test()
mod = core.load_module(sys.argv[1]); t = {t.name: t for t in mod.TESTS}[sys.argv[2]]
d = tempfile.mkdtemp(); os.chdir(d)
ctx = core.Ctx(d); fail = {}
r = core.make_runner(t, ctx, int(sys.argv[3]), 5, fail)
p = cProfile.Profile(); p.enable()
try:
    r()
finally:
    p.disable()
    pstats.Stats(p).sort_stats('cumtime').print_stats(int(sys.argv[4]) if len(sys.argv) > 4 else 25)
