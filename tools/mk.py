"""mk.py: helper used interactively; mk(id, prop, file, edits, demo, needs, what)"""
import os, subprocess, json
def mk(i, prop, edits, demo, needs, what, flags=''):
    d = '/verif/seeded/' + i
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run('git -C /repo status --porcelain -uno', shell=True, capture_output=True, text=True).stdout.strip()
    for f, old, new in edits:
        p = '/repo/' + f; s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    open(d + '/patch.diff', 'w').write(subprocess.run('git -C /repo diff', shell=True, capture_output=True, text=True).stdout)
    subprocess.run('git -C /repo checkout -- .', shell=True)
    open(d + '/demo.cpp', 'w').write(demo)
    t = open('/verif/tools/demo.tmpl').read()
    if flags: t = t.replace('-DNDEBUG', flags)
    open(d + '/demo.sh', 'w').write(t)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
def stubs(i):
    """functional stand-ins for MPI and the tensor library, beside the demo"""
    import shutil
    shutil.copytree('/verif/tools/demo_stub', '/verif/seeded/' + i, dirs_exist_ok=True)
def upds(i):
    import shutil
    shutil.copytree('/verif/tools/demo_upd', '/verif/seeded/' + i, dirs_exist_ok=True)
def opts(i):
    """functional stand-ins for the environment of class Optimizer"""
    import shutil
    shutil.copytree('/verif/tools/demo_opt', '/verif/seeded/' + i, dirs_exist_ok=True)
def engs(i):
    """functional stand-ins below the sampling engine and the estimators, with ranks as threads"""
    import shutil
    shutil.copytree('/verif/tools/demo_eng', '/verif/seeded/' + i, dirs_exist_ok=True)
