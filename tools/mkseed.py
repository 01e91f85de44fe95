"""mkseed.py SPECFILE [id...]: turns specifications of planted bugs into seeded/<id>/, confirms each of them (applies, changes only
original lines, stable tests pass, demo fails only with the patch) and runs the check of its property against it.

A specification is a python file defining SEEDS, a list of dicts: id, property, edits [(file, old, new)], demo, needs, breaks."""
import json
import os
import re
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BASE = subprocess.check_output(['git', '-C', REPO, 'log', '--format=%H', '--grep=^fix:', '--invert-grep', '-1'], text=True).strip()


def sh(*a, **kw):
    return subprocess.run(a, capture_output=True, text=True, **kw)


def original_only(path):
    """deleted lines of the working tree change which are not in the original repository"""
    base = sh('git', '-C', REPO, 'show', '%s:%s' % (BASE, path)).stdout.split('\n')
    d = sh('git', '-C', REPO, 'diff', '-U0', '--', path).stdout
    return [l[1:] for l in d.split('\n') if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in base]


def tests_ok():
    sh('bash', '/opt/vp/test.sh', '/tmp/seedtest.json')
    r = json.load(open('/tmp/seedtest.json'))
    stable = json.load(open('/opt/vp/BASELINE.json'))
    stable = stable.get('stable') or stable.get('passed') or stable
    bad = [t for t in stable if t not in set(r['passed'])]
    return bad


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = [a for a in sys.argv[2:] if not a.startswith('-')]
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        d = os.path.join(ROOT, 'seeded', s['id'])
        assert not sh('git', '-C', REPO, 'status', '--porcelain').stdout.strip(), 'repo not clean'
        try:
            err = None
            for f, old, new in s['edits']:
                p = os.path.join(REPO, f)
                t = open(p).read()
                if t.count(old) != 1:
                    err = '%s: %d matches of %r' % (f, t.count(old), old[:60])
                    break
                open(p, 'w').write(t.replace(old, new))
            if err:
                print(s['id'], 'BAD SPEC', err)
                continue
            mine = [l for f in {e[0] for e in s['edits']} for l in original_only(f)]
            if mine:
                print(s['id'], 'CHANGES MY LINES', mine)
                continue
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, 'patch.diff'), 'w').write(sh('git', '-C', REPO, 'diff').stdout)
            open(os.path.join(d, 'demo.py'), 'w').write(HEAD + s['demo'].strip() + '\n')
            open(os.path.join(d, 'demo.sh'), 'w').write(SH)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            demo = ['bash', os.path.join(d, 'demo.sh')]
            with_bug = sh(*demo, cwd=REPO)
            if with_bug.returncode == 0:
                print(s['id'], 'DEMO PASSES WITH BUG')
                sh('rm', '-r', d)
                continue
            if '-notests' not in sys.argv:
                bad = tests_ok()
                if bad:
                    print(s['id'], 'TESTS FAIL', len(bad), bad[:3])
                    sh('rm', '-r', d)
                    continue
            r = sh(os.path.join(ROOT, 'check.sh'), s['property'], 'quick', cwd=ROOT)
            out = r.stdout.strip().split('\n')
            v = [l for l in out if l.startswith('VIOLATION')]
            state = 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode
            print(s['id'], s['property'], state, '|', re.sub(r'\s+', ' ', ' '.join(out[-3:-1]))[-230:] if v else '', flush=True)
        finally:
            sh('git', '-C', REPO, 'checkout', '--', '.')
        clean = sh('bash', os.path.join(d, 'demo.sh'), cwd=REPO)
        if clean.returncode:
            print(s['id'], 'DEMO FAILS ON CLEAN TREE', clean.stderr[-300:])


HEAD = '''import os, shutil, sys, tempfile, warnings
warnings.simplefilter('ignore')
tmp = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, tmp, True)
os.chdir(tmp)
import hickle
import h5py
import numpy as np


def roundtrip(x, **kw):
    hickle.dump(x, 'f.hkl', mode='w', **kw)
    return hickle.load('f.hkl')


'''
SH = '''#!/bin/bash
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
if __name__ == '__main__':
    main()
