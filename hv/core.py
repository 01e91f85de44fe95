"""Runner: shards the generated-input search of one property over worker
processes, merges what they covered into evidence/<id>.json, turns the first
(shrunk) failure into a replay file.

exit 0  property held on everything explored
exit 1  VIOLATION line printed
exit 2  the machinery itself could not run
"""
import errno
import hashlib
import importlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import boot

ROOT = boot.ROOT
CASE_TIMEOUT = 120
MEMORY = 3500 << 20     # address space of one worker


class Violation(Exception):
    """the property does not hold for the current case"""


class Discard(Exception):
    """case outside the domain of the property"""


class Test:
    def __init__(self, name, strategy, check, quick, thorough, stateful=False):
        self.name = name
        self.strategy = strategy      # () -> hypothesis strategy
        self.check = check            # (case, ctx) -> None
        self.quick = quick
        self.thorough = thorough


class Ctx:
    """handed to every check: scratch directory, bookkeeping"""

    def __init__(self, scratch):
        self.scratch = scratch
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.labels = {}
        self._n = 0
        self.stride = 41
        self._nontrivial = None
        self._key = None

    def nontrivial(self, flag=True, key=None):
        self._nontrivial = bool(flag)
        self._key = key

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

    def known(self, ident):
        """the failure at hand is the one listed as ident in KNOWN_FINDINGS.txt"""
        if ident in known_findings():
            self.label('known finding ' + ident)
            return True
        return False

    def path(self, suffix='.hkl'):
        self._n += 1
        return os.path.join(self.scratch, 'f%d%s' % (self._n, suffix))

    def clean(self):
        for n in os.listdir(self.scratch):
            p = os.path.join(self.scratch, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                try:
                    os.unlink(p)
                except OSError:
                    pass


_known = None


def known_findings():
    """ident -> text of lines 'open: property=P id=ident text'"""
    global _known
    if _known is None:
        _known = {}
        with open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')) as f:
            for line in f:
                if line.startswith('open:'):
                    _, prop, ident, text = line.strip().split(' ', 3)
                    _known[ident.split('=', 1)[1]] = prop, text
    return _known


def short(x, n=600):
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as e:       # repr of half built objects
        s = '<unprintable %s: %r>' % (type(x).__name__, e)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


def _alarm(*_):
    raise Violation('no result within %d s' % CASE_TIMEOUT)


ENV_ERRNO = {errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EDQUOT}


def load_module(prop):
    return importlib.import_module('checks.' + prop.lower())


def run_case(test, case, ctx):
    """one evaluation; every exception escaping the check is a violation"""
    ctx._nontrivial = ctx._key = None
    if os.environ.get('HV_TRACE'):
        with open(os.environ['HV_TRACE'], 'w') as f:
            f.write(test.name + '\n' + short(case, 20000))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        test.check(case, ctx)
    except (Violation, Discard):
        raise
    except MemoryError as e:     # the address space of a worker is limited (worker()), the cases are small
        raise Violation('out of memory\n%s' % short(traceback.format_exc(), 3000)) from e
    except OSError as e:
        if e.errno in ENV_ERRNO:
            raise
        raise Violation('unexpected %r\n%s' % (e, short(traceback.format_exc(), 3000))) from e
    except Exception as e:
        raise Violation('unexpected %r\n%s' % (e, short(traceback.format_exc(), 3000))) from e
    finally:
        signal.alarm(0)
        if ctx._n > 20:
            ctx.clean()
            ctx._n = 0
    ctx.evaluations += 1
    if ctx._nontrivial:
        r = ctx._key or (case if isinstance(case, str) else short(case, 5000))
        k = hashlib.blake2b((test.name + '\0' + r).encode('utf8', 'backslashreplace'), digest_size=8).hexdigest()
        if k not in ctx.keys:
            ctx.keys.add(k)
            if len(ctx.samples) < 8 and len(ctx.keys) % ctx.stride == ctx.stride - 1:
                ctx.samples.append(short('%s: %s' % (test.name, r), 400))


def hyp_settings(n):
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 45
    # one pass of the shrinker formats the repr of whole strategies, exponential in the depth of ours: left out
    from hypothesis.internal.conjecture.shrinker import Shrinker
    if hasattr(Shrinker, 'widen_to_span_with_recorded_value'):
        Shrinker.widen_to_span_with_recorded_value = lambda self, chooser: None
    return settings(max_examples=n, database=None, deadline=None, derandomize=False,
                    report_multiple_bugs=False, print_blob=True,
                    suppress_health_check=list(HealthCheck),
                    phases=(Phase.explicit, Phase.generate, Phase.shrink))


def make_runner(test, ctx, n, seed_value, fail, first=lambda fail: None):
    from hypothesis import given, seed, reject

    @seed(seed_value)
    @hyp_settings(n)
    @given(test.strategy())
    def runner(case):
        try:
            run_case(test, case, ctx)
        except Discard:
            reject()
        except Violation as v:
            fail['case'] = short(case, 20000)
            fail['message'] = str(v)
            if len(fail) == 2:
                fail['first'] = True
                first(fail)
            raise
    return runner


def seed_for(seed, prop, test, shard):
    h = hashlib.sha256(('%s/%s/%s/%s' % (seed, prop, test, shard)).encode()).digest()
    return int.from_bytes(h[:6], 'big')


def worker(prop, tier, shard, nshards, seed, out, scratch):
    boot.hypothesis_path()
    boot.code_under_test()
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    mod = load_module(prop)
    ctx = Ctx(scratch)
    result = {'shard': shard, 'failure': None, 'per_test': {}}
    for t in mod.TESTS:
        total = t.quick if tier == 'quick' else t.thorough
        n = (total + nshards - 1 - shard) // nshards
        if n <= 0:
            continue
        fail = {}
        before = ctx.evaluations

        def first(fail):
            # should the worker not survive the shrinking, this is what was found
            with open(out + '.first', 'w') as f:
                json.dump({'property': prop, 'test': t.name, 'tier': tier, 'seed': seed, 'shard': shard, 'nshards': nshards,
                           'hypothesis': None, 'blob': None, 'case': fail['case'], 'message': fail['message']}, f)
        try:
            make_runner(t, ctx, n, seed_for(seed, prop, t.name, shard), fail, first)()
        except BaseException as e:
            if not fail or isinstance(e, KeyboardInterrupt):
                raise
            notes = '\n'.join(getattr(e, '__notes__', []))
            m = re.search(r"reproduce_failure\('([^']+)', (b'[^']*')\)", notes)
            result['failure'] = {'property': prop, 'test': t.name, 'tier': tier, 'seed': seed,
                                 'shard': shard, 'nshards': nshards,
                                 'hypothesis': m.group(1) if m else None,
                                 'blob': m.group(2)[2:-1] if m else None,
                                 'case': fail['case'], 'message': fail['message']}
        result['per_test'][t.name] = result['per_test'].get(t.name, 0) + ctx.evaluations - before
        if result['failure']:
            break
        ctx.clean()
    result.update(evaluations=ctx.evaluations, keys=sorted(ctx.keys), samples=ctx.samples, labels=ctx.labels)
    tmp = out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(result, f)
    os.rename(tmp, out)
    return 0


def write_replay(failure):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(failure, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, '%s-%s-%s.json' % (failure['property'], failure['test'], h))
    with open(p, 'w') as f:
        json.dump(failure, f, indent=1)
    return p


def env_for(base):
    env = dict(os.environ)
    env['PYTHONPYCACHEPREFIX'] = os.path.join(base, 'pyc')
    env['TMPDIR'] = base
    env['HOME'] = base
    env['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(base, 'hyp')
    return env


def check(prop, tier, seed):
    t0 = time.time()
    mod_ok = os.path.exists(os.path.join(ROOT, 'checks', prop.lower() + '.py'))
    if not mod_ok:
        print('no such check', prop)
        return 2
    boot.hypothesis_path()
    nshards = int(os.environ.get('HV_SHARDS', '8'))
    base = tempfile.mkdtemp(prefix='hv-%s-' % prop)
    limit = 780 if tier == 'quick' else 6 * 3600
    procs = {}
    results = {}
    crash = []
    try:
        def start(i, trace=None):
            sc = os.path.join(base, 's%d%s' % (i, 'r' if trace else ''))
            os.makedirs(sc)
            out = os.path.join(base, 'out%d.json' % i)
            env = env_for(base)
            env.pop('HV_TRACE', None)
            if trace:
                env['HV_TRACE'] = trace
            log = open(os.path.join(base, 'log%d' % i), 'wb')
            p = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(ROOT, 'run.py'), '--worker', prop, tier,
                                  str(i), str(nshards), str(seed), out, sc],
                                 stdout=log, stderr=subprocess.STDOUT, env=env, cwd=sc, start_new_session=True)
            log.close()
            return p, out, trace
        for i in range(nshards):
            procs[i] = start(i)
        failure = None
        while procs and failure is None:
            time.sleep(0.05)
            for i, (p, out, trace) in list(procs.items()):
                rc = p.poll()
                if rc is None:
                    continue
                del procs[i]
                if rc == 0 and os.path.exists(out):
                    with open(out) as f:
                        results[i] = json.load(f)
                    if results[i]['failure']:
                        failure = results[i]['failure']
                elif rc < 0 and rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL):
                    if trace is None:
                        procs[i] = start(i, os.path.join(base, 'trace%d' % i))
                    else:
                        with open(trace) as f:
                            tn, case = f.read().split('\n', 1)
                        failure = {'property': prop, 'test': tn, 'tier': tier, 'seed': seed, 'shard': i,
                                   'nshards': nshards, 'hypothesis': None, 'blob': None, 'case': case,
                                   'message': 'process ended by signal %d while evaluating this case' % -rc}
                elif os.path.exists(out + '.first'):
                    with open(out + '.first') as f:
                        failure = json.load(f)
                else:
                    with open(os.path.join(base, 'log%d' % i), errors='replace') as f:
                        crash.append('worker %d ended with %d\n%s' % (i, rc, f.read()[-4000:]))
            if time.time() - t0 > limit and failure is None:
                firsts = [o + '.first' for _, o, _ in procs.values() if os.path.exists(o + '.first')]
                if not firsts:
                    print('time limit of the runner exceeded')
                    return 2
                with open(firsts[0]) as f:
                    failure = json.load(f)
        for p, _, _ in procs.values():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
    finally:
        for p, _, _ in procs.values():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(base, ignore_errors=True)

    if crash and failure is None:
        print('the machinery failed:\n' + crash[0])
        return 2

    keys = set()
    samples, per_test, labels = [], {}, {}
    evaluations = 0
    for i in sorted(results):
        r = results[i]
        keys.update(r['keys'])
        evaluations += r['evaluations']
        for k, v in r['per_test'].items():
            per_test[k] = per_test.get(k, 0) + v
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
    for rank in range(8):
        for i in sorted(results):
            if len(results[i]['samples']) > rank and len(samples) < 12:
                samples.append(results[i]['samples'][rank])
    import ast
    src = open(os.path.join(ROOT, 'checks', prop.lower() + '.py')).read()
    consts = {}
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS', 'LEVEL'):
            consts[node.targets[0].id] = ast.literal_eval(node.value)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': consts.get('LEVEL', 'exploration'),
          'coverage': {'evaluations': evaluations, 'distinct_nontrivial': len(keys), 'rule': consts.get('RULE', ''),
                       'samples': samples, 'per_test': per_test, 'labels': labels},
          'wall_s': round(time.time() - t0, 2), 'violations': 1 if failure else 0,
          'assumptions': consts.get('ASSUMPTIONS', [])}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if failure:
        rp = write_replay(failure)
        print(short(failure['case'], 3000))
        print(short(failure['message'], 3000))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    for ident, (p, text) in known_findings().items():
        if labels.get('known finding ' + ident):
            print('KNOWN-FINDING: %s %s' % (p, text))
    print('%s %s: %d evaluations, %d distinct non-trivial, %.1f s' % (prop, tier, evaluations, len(keys), time.time() - t0))
    return 0


def replay(path):
    with open(path) as f:
        fl = json.load(f)
    prop = fl['property']
    base = tempfile.mkdtemp(prefix='hv-replay-')
    out = os.path.join(base, 'out.json')
    sc = os.path.join(base, 's')
    os.makedirs(sc)
    try:
        if fl.get('blob'):
            argv = ['--replay-worker', os.path.abspath(path), sc]
        else:
            argv = ['--worker', prop, fl['tier'], str(fl['shard']), str(fl['nshards']), str(fl['seed']), out, sc]
        p = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(ROOT, 'run.py')] + argv,
                           env=env_for(base), cwd=sc, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        bad = p.returncode != 0
        if not bad and os.path.exists(out):
            with open(out) as f:
                bad = bool(json.load(f)['failure'])
        print(p.stdout[-3000:])
    finally:
        shutil.rmtree(base, ignore_errors=True)
    if bad:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('not reproduced')
    return 0


def replay_worker(path, scratch):
    boot.hypothesis_path()
    boot.code_under_test()
    with open(path) as f:
        fl = json.load(f)
    mod = load_module(fl['property'])
    test = {t.name: t for t in mod.TESTS}[fl['test']]
    from hypothesis import reproduce_failure
    fail = {}
    r = make_runner(test, Ctx(scratch), 1, 0, fail)
    try:
        reproduce_failure(fl['hypothesis'], fl['blob'].encode('latin1'))(r)()
    except BaseException as e:
        print(fail.get('case', ''), '\n', fail.get('message', repr(e)))
        return 1 if fail else 0
    return 0


def main(argv):
    sys.path.insert(0, ROOT)
    if argv[0] == '--worker':
        _, prop, tier, shard, nshards, seed, out, scratch = argv
        return worker(prop, tier, int(shard), int(nshards), int(seed), out, scratch)
    if argv[0] == '--replay-worker':
        return replay_worker(argv[1], argv[2])
    if argv[0] == '--replay':
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return check(prop, tier, int(os.environ.get('VERIF_SEED', '1')))
