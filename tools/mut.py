#!/usr/bin/env python3
"""Mutations in a scratch copy of the headers.  mut.py [name...]
   tools/mutations/<name>.py defines CHECKS = [...] and MUTS = [(label, file, old, new, old, new, ...), ...]; every one must be caught,
   labels starting with '=' are behaviour preserving and must stay quiet."""
import sys, os, subprocess, runpy, shutil, tempfile, concurrent.futures
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.path.dirname(os.path.abspath(__file__)) + '/mutations'
def one(name, checks, label, f, *pairs):
    d = tempfile.mkdtemp(prefix='qlvmut')
    try:
        shutil.copytree(os.environ.get('QLV_REPO', '/repo') + '/include', d + '/include')
        p = d + '/' + f; s = open(p).read()
        for old, new in zip(pairs[::2], pairs[1::2]):
            if s.count(old) != 1: return '%-14s %-34s STALE (%d)' % (name, label, s.count(old))
            s = s.replace(old, new)
        open(p, 'w').write(s)
        out = []
        for c in checks:
            r = subprocess.run(['python3', V + '/check.py', c], capture_output=True, text=True, env=dict(os.environ, QLV_REPO=d))
            out.append((c, r.returncode, r.stdout))
        want = 0 if label.startswith('=') else 1
        ok = all(x[1] == 0 for x in out) if want == 0 else any(x[1] == 1 for x in out)
        line = '%-14s %-34s %s' % (name, label, 'ok' if ok else 'WRONG ' + ' '.join('%s rc=%d' % (x[0], x[1]) for x in out))
        if not ok or '-v' in sys.argv: line += '\n' + '\n'.join(x[2][-600:] for x in out if want == 0 or x[1] == 2 or '-v' in sys.argv)
        return line
    finally:
        shutil.rmtree(d)
names = [x for x in sys.argv[1:] if x != '-v'] or sorted(x[:-3] for x in os.listdir(R) if x.endswith('.py'))
with concurrent.futures.ThreadPoolExecutor(3) as ex:
    fs = []
    for n in names:
        m = runpy.run_path('%s/%s.py' % (R, n))
        for mu in m['MUTS']: fs.append(ex.submit(one, n, m['CHECKS'], *mu))
    for f in fs: print(f.result(), flush=True)
