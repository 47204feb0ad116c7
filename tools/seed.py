#!/usr/bin/env python3
"""Seeded-bug helper.
  seed.py new                    fresh scratch copy of /repo in /tmp/wt/repo
  seed.py sub FILE OLD NEW [N]   replace the N-th (default only) occurrence of OLD by NEW in the scratch copy
  seed.py save ID PROP NEEDS BREAKS  (demo on stdin, python)   record, build, test, run demo both ways and the check
"""
import json
import os
import re
import subprocess
import sys

WT = '/tmp/wt/repo'
VP = '/tmp/wt/vp'
SEEDS = '/verif/seeded'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def new():
    if not os.path.isdir(WT):
        os.makedirs('/tmp/wt', exist_ok=True)
        sh('cp -a /repo /tmp/wt/repo && cp -a /opt/vp /tmp/wt/vp')
        for f in os.listdir(VP):
            p = os.path.join(VP, f)
            if os.path.isfile(p) and f.endswith(('.sh', '.py')):
                s = open(p).read().replace('/opt/vp', VP).replace('/repo', WT)
                open(p, 'w').write(s)
    h = sh('git -C /repo rev-parse HEAD').stdout.strip()
    print(sh('git -C %s fetch -q /repo HEAD; git -C %s checkout -q -f %s; git -C %s checkout -- . ; git -C %s status --short' % (WT, WT, h, WT, WT)).stdout)


def sub(f, old, new_, n=None):
    p = os.path.join(WT, f)
    s = open(p).read()
    c = s.count(old)
    if n is None:
        assert c == 1, 'occurrences: %d' % c
        s = s.replace(old, new_)
    else:
        n = int(n)
        parts = s.split(old)
        assert len(parts) > n
        s = old.join(parts[:n]) + new_ + old.join(parts[n:])
    open(p, 'w').write(s)


def save(id_, prop, needs, breaks, demo):
    d = os.path.join(SEEDS, id_)
    os.makedirs(d, exist_ok=True)
    diff = sh('git -C %s diff' % WT).stdout
    assert diff.strip(), 'no change'
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    if demo.strip():
        open(d + '/demo.py', 'w').write(demo)
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PATH=/opt/venv/bin:$PATH PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg\nexec python -W ignore "$here/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
    verify(id_, applied=True)


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    return set(b['stable'])


def verify(id_, applied=False, tests=True):
    d = os.path.join(SEEDS, id_)
    if not applied:
        new()
        r = sh('git -C %s apply %s/patch.diff' % (WT, d))
        if r.returncode:
            print(id_, 'PATCH DOES NOT APPLY', r.stdout)
            return
    prop = json.load(open(d + '/meta.json'))['property']
    r = sh('bash %s/build.sh' % VP, cwd=WT)
    print('build', r.returncode, '' if r.returncode == 0 else r.stdout[-800:])
    if tests:
        sh('bash %s/test.sh /tmp/wt/out.json' % VP, cwd=WT)
        o = json.load(open('/tmp/wt/out.json'))
        passed = set(o.get('passed', o if isinstance(o, list) else []))
        miss = sorted(stable() - passed)
        print('stable tests lost:', len(miss), miss[:5])
    r = sh('timeout 290 bash %s/demo.sh' % d, cwd=WT)
    print('demo with patch: rc', r.returncode, r.stdout[-400:].strip())
    env = dict(os.environ, SA_REPO=WT)
    r2 = sh('python3-vt check.py %s' % prop, cwd='/verif', env=env)
    print('check %s rc %d' % (prop, r2.returncode), '\n'.join(l[:260] for l in r2.stdout.splitlines() if l.startswith('  [') or 'VIOLATION' in l)[:1500])
    new()
    sh('bash %s/build.sh' % VP, cwd=WT)
    r = sh('timeout 290 bash %s/demo.sh' % d, cwd=WT)
    print('demo clean: rc', r.returncode, r.stdout[-300:].strip())


if __name__ == '__main__':
    a = sys.argv
    if a[1] == 'new':
        new()
    elif a[1] == 'sub':
        sub(*a[2:])
    elif a[1] == 'save':
        save(a[2], a[3], a[4], a[5], sys.stdin.read())
    elif a[1] == 'verify':
        verify(a[2])
    elif a[1] == 'detect':
        for x in a[2:]:
            new()
            d = os.path.join(SEEDS, x)
            r = sh('git -C %s apply %s/patch.diff' % (WT, d))
            prop = json.load(open(d + '/meta.json'))['property']
            r2 = sh('python3-vt check.py %s' % prop, cwd='/verif', env=dict(os.environ, SA_REPO=WT))
            print(x, prop, 'apply', r.returncode, 'rc', r2.returncode)
        new()
