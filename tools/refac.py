#!/usr/bin/env python3
"""Behaviour-preserving edits; every check named must stay quiet.  refac.py [-c] [name...]
   tools/refactors/<name>.py defines CHECKS = [...] and EDITS = [(file, old, new), ...]
   -c: edit a scratch copy of /repo instead (the repository's tests are then only run if -t is given too)"""
import sys, os, subprocess, runpy, json, time, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = V + '/tools/refactors'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
args = sys.argv[1:]
copy = '-c' in args
args = [a for a in args if a != '-c']
names = args or sorted(x[:-3] for x in os.listdir(R) if x.endswith('.py'))
for n in names:
    m = runpy.run_path('%s/%s.py' % (R, n))
    if copy:
        tmp = tempfile.mkdtemp(prefix='rf'); repo = tmp + '/repo'; sh('git clone -q /repo ' + repo)
    else:
        repo = '/repo'
        if sh('git -C /repo status --porcelain -uno').stdout.strip(): sys.exit('repo dirty')
    try:
        for f, old, new in m['EDITS']:
            p = repo + '/' + f; s = open(p).read()
            if s.count(old) < 1: print(n, 'STALE', repr(old[:60])); break
            open(p, 'w').write(s.replace(old, new))
        else:
            ok = True
            if not copy:
                t = sh('bash /opt/vp/test.sh /tmp/seed_out.json')
                ok = not json.load(open('/tmp/seed_out.json'))['failed'] and json.load(open('/tmp/seed_out.json'))['passed']
            for c in m['CHECKS']:
                t0 = time.time(); r = sh('QLV_REPO=%s python3 %s/check.py %s' % (repo, V, c), cwd=V)
                print('%-24s %s %s %.0fs%s' % (n, c, 'quiet' if r.returncode == 0 else 'ALARM rc=%d' % r.returncode, time.time() - t0, '' if ok else ' TESTS FAIL'), flush=True)
                if r.returncode: print(r.stdout[-2500:])
    finally:
        if copy: sh('rm -rf ' + tmp)
        else: sh('git -C /repo checkout -- .')
if not copy: sh('bash /opt/vp/build.sh')
