"""Plants a bug in /repo, confirms it (builds, stable tests pass, demo tells it apart), keeps it under seeded/, runs the
check of its property against it, and puts /repo back.  Used by hand:

    from plant import bug, done
    bug('S01', 'C01', [('count/onoff.py', old, new)], demo_source, needs, what)
"""
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO, PKG = '/repo', '/repo/package/inference/'
BASE = subprocess.run(['git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()


def sh(cmd, timeout=900, **k):
    return subprocess.run(['bash', '-c', cmd], capture_output=True, text=True, timeout=timeout, **k)


def restore():
    sh('git -C /repo checkout -q -- . && bash /opt/vp/build.sh')


def base_lines(patch):
    """Every line the patch removes comes from the original commit, and it removes at least one."""
    removed, fn = [], None
    for line in patch.splitlines():
        if line.startswith('--- '):
            fn = line[6:]
        elif line.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', line).group(1))
        elif fn and line.startswith('-'):
            removed.append((fn, n))
            n += 1
        elif fn and line.startswith(' '):
            n += 1
    for fn, n in removed:
        b = sh('git -C /repo blame -s --abbrev=39 -L %d,%d HEAD -- %s' % (n, n, fn)).stdout
        if not b.lstrip('^').startswith(BASE[:30]):
            return 'line %d of %s is not original: %s' % (n, fn, b[:100])
    return None if removed else 'removes no line'


def check(prop, seed=1):
    t = time.time()
    r = sh('cd %s && VERIF_SEED=%d VERIF_TIER=quick bash bin/check %s' % (VERIF, seed, prop))
    caught = r.returncode == 1 and ('VIOLATION property=%s ' % prop) in r.stdout
    lines = [l for l in r.stdout.splitlines() if not l.startswith('VIOLATION')]
    return caught, r.returncode, '%.0fs %s' % (time.time() - t, (lines[-1] if lines else r.stderr[-300:])[:230])


def bug(id, prop, edits, demo, needs, what, checks=None, seeds=(1,)):
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty /repo'
    d = os.path.join(VERIF, 'seeded', id)
    try:
        for f, old, new in edits:
            p = os.path.join(REPO, f) if f.startswith('sandbox/') else PKG + f
            s = open(p).read()
            if s.count(old) != 1:
                print(id, 'EDIT', f, s.count(old), repr(old)[:100])
                return
            open(p, 'w').write(s.replace(old, new))
        patch = sh('git -C /repo diff').stdout
        bad = base_lines(patch)
        if bad:
            print(id, 'LINES', bad)
            return
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# Exit 0 where the property holds.\nd=$(cd "$(dirname "$0")" && pwd)\n'
                                        'w=$(mktemp -d) || exit 2\ncd "$w" || exit 2\n'
                                        'export PYTHONPATH=/repo/package PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$w" '
                                        'OMP_NUM_THREADS=1\n'
                                        'timeout 120 /opt/venv/bin/python "$d/demo.py"\nrc=$?\ncd / && rm -rf "$w"\nexit $rc\n')
        json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
        b = sh('bash /opt/vp/build.sh')
        if b.returncode:
            print(id, 'BUILD', (b.stdout + b.stderr)[-400:])
            return shutil.rmtree(d)
        sh('bash /opt/vp/test.sh /tmp/plant.json')
        missing = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(json.load(open('/tmp/plant.json'))['passed'])
        if missing:
            print(id, 'TESTS', missing)
            return shutil.rmtree(d)
        r = sh('cd /repo && bash %s/demo.sh' % d)
        if r.returncode == 0:
            print(id, 'DEMO passes with the bug', r.stdout[-300:])
            return shutil.rmtree(d)
        how = (r.stderr.strip().splitlines() or [''])[-1][:150]
        res = [(c, s) + check(c, s) for c in (checks or [prop]) for s in seeds]
    finally:
        restore()
    r = sh('cd /repo && bash %s/demo.sh' % d)
    if r.returncode:
        print(id, 'DEMO fails without the bug', (r.stdout + r.stderr)[-500:])
        return shutil.rmtree(d)
    print(id, 'demo:', how)
    for c, s, caught, rc, line in res:
        print('   ', c, s, 'CAUGHT' if caught else 'MISSED rc=%d' % rc, line, flush=True)


def again(ids=None, seeds=(1,)):
    """The checks against the bugs kept."""
    for id in ids or sorted(os.listdir(VERIF + '/seeded')):
        d = os.path.join(VERIF, 'seeded', id)
        prop = json.load(open(d + '/meta.json'))['property']
        r = sh('git -C /repo apply %s/patch.diff' % d)
        try:
            if r.returncode:
                print(id, 'does not apply', r.stderr)
                continue
            for s in seeds:
                caught, rc, line = check(prop, s)
                print(id, prop, s, 'CAUGHT' if caught else 'MISSED rc=%d' % rc, line, flush=True)
        finally:
            sh('git -C /repo checkout -q -- .')


if __name__ == '__main__':
    again(sys.argv[1:])
