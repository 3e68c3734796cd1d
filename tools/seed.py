#!/usr/bin/env python3
"""seed.py new ID PROP FILE  <<< json {edits:[[old,new],..], demo:"c++", needs, what}   create /verif/seeded/ID
   seed.py run [ID...]   apply each to /repo, build, test, demo, run its property's check, undo"""
import sys, os, json, subprocess, glob
V = '/verif/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def run(i):
    d = V + '/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    r0 = sh('bash %s/demo.sh' % d, cwd='/repo').returncode
    if sh('git -C /repo status --porcelain -uno').stdout.strip(): sys.exit('repo dirty')
    a = sh('git -C /repo apply %s/patch.diff' % d)
    if a.returncode: print(i, 'DOES NOT APPLY', a.stderr); return
    try:
        t = sh('bash /opt/vp/test.sh /tmp/seed_out.json')
        ok = set(json.load(open('/tmp/seed_out.json'))['passed']) >= STABLE
        r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
        c = sh('python3 /verif/check.py ' + prop, cwd='/verif')
        caught = c.returncode == 1 and 'VIOLATION property=%s ' % prop in c.stdout
        print('%-28s %s base=%d tests=%s demo=%d check=%s' % (i, prop, r0, ok, r1.returncode, 'CAUGHT' if caught else 'missed rc=%d' % c.returncode))
        if r0 or not ok or not r1.returncode or '-v' in sys.argv: print(r1.stdout[-500:], r1.stderr[-800:], c.stdout[-1500:])
    finally:
        sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
if sys.argv[1] == 'run':
    for i in [x for x in sys.argv[2:] if x != '-v'] or sorted(os.listdir(V)): run(i)
