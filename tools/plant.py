"""Create /verif/seeded/<id>/ from a bug description and confirm it in a scratch copy; run the checks against planted bugs.

usage: plant.py make SPEC.py [...]     (SPEC: ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new[, count])], DEMO)
       plant.py try [ID ...]           (quick check of the bug's property against a patched scratch copy)
"""
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys
import tarfile
import tempfile

V = '/verif'
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2
exec /opt/venv/bin/python -B "$here/demo.py"
'''
LIB = '''"""Import wilson from the current directory; the basis definitions (an empty submodule there) come from bases.tar.gz."""
import atexit
import os
import shutil
import sys
import tarfile
import tempfile
here = os.path.dirname(os.path.abspath(__file__))
top = tempfile.mkdtemp(prefix='demo_')
atexit.register(shutil.rmtree, top, ignore_errors=True)
src, dst = os.path.join(os.getcwd(), 'wilson'), os.path.join(top, 'wilson')
os.makedirs(os.path.join(dst, 'wcxf'))
for sub, skip in (('', 'wcxf'), ('wcxf', 'bases')):
    for n in os.listdir(os.path.join(src, sub)):
        if n not in (skip, '__pycache__'):
            os.symlink(os.path.join(src, sub, n), os.path.join(dst, sub, n))
with tarfile.open(os.path.join(here, 'bases.tar.gz')) as t:
    t.extractall(os.path.join(dst, 'wcxf'), filter='data')
sys.path.insert(0, top)
sys.path[:] = [p for p in sys.path if p not in ('', os.getcwd())]


def fail(msg):
    print('FAIL:', msg)
    sys.exit(1)


def close(a, b, what, rtol=1e-6, atol=0.0):
    if not abs(a - b) <= rtol * abs(b) + atol:
        fail('%s: %s, expected %s' % (what, a, b))
'''


def run(cmd, cwd, env=None):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=880)
    return r.returncode, r.stdout + r.stderr


def scratch():
    d = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
    r = os.path.join(d, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', r])
    return d, r


def bases_tar(path):
    def f(ti):
        ti.uid = ti.gid = 0
        ti.uname = ti.gname = ''
        ti.mtime = 0
        return ti
    with tarfile.open(path, 'w:gz') as t:
        t.add(os.path.join(V, 'fixtures', 'bases'), 'bases', filter=f)


def tests(repo):
    """the stable tests, run against a scratch copy"""
    d = tempfile.mkdtemp(prefix='plant_t_', dir='/tmp')
    try:
        h = os.path.join(d, 'harness')
        shutil.copytree('/opt/vp/harness', h)
        for f in glob.glob(h + '/*.py'):
            t = open(f).read()
            open(f, 'w').write(t.replace('/repo', repo))
        t = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + repo).replace('/opt/vp/harness', h)
        open(os.path.join(d, 'test.sh'), 'w').write(t)
        rc, o = run(['bash', os.path.join(d, 'test.sh'), os.path.join(d, 'out.json')], repo)
        passed = set(json.load(open(os.path.join(d, 'out.json')))['passed'])
        missing = set(STABLE) - passed
        return (1, '%s\n%s' % (sorted(missing), o)) if missing else (0, o)
    finally:
        shutil.rmtree(d)


def make(spec):
    s = runpy.run_path(spec)
    out = os.path.join(V, 'seeded', s['ID'])
    d, repo = scratch()
    try:
        for ed in s['EDITS']:
            f, old, new = ed[:3]
            p = os.path.join(repo, f)
            t = open(p).read()
            n = t.count(old)
            if n != (ed[3] if len(ed) > 3 else 1):
                return 'edit of %s matches %d times: %r' % (f, n, old[:60])
            open(p, 'w').write(t.replace(old, new))
        rc, diff = run(['git', 'diff', '--no-color'], repo)
        w = os.path.join(d, 'bug')
        os.mkdir(w)
        open(os.path.join(w, 'patch.diff'), 'w').write(diff)
        open(os.path.join(w, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(w, 'demo.sh'), 0o755)
        open(os.path.join(w, 'demo_lib.py'), 'w').write(LIB)
        open(os.path.join(w, 'demo.py'), 'w').write(s['DEMO'].lstrip())
        bases_tar(os.path.join(w, 'bases.tar.gz'))
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
                  open(os.path.join(w, 'meta.json'), 'w'), indent=1)
        rc, o = tests(repo)
        if rc:
            return 'stable tests fail: ' + o[-600:]
        rc, o = run(['bash', os.path.join(w, 'demo.sh')], '/repo')
        if rc:
            return 'demo fails on the unchanged tree: ' + o[-800:]
        rc, o = run(['bash', os.path.join(w, 'demo.sh')], repo)
        if rc == 0:
            return 'demo passes with the patch'
        if 'FAIL:' not in o:
            return 'demo dies without FAIL: ' + o[-800:]
        if os.path.exists(out):
            shutil.rmtree(out)
        shutil.copytree(w, out)
        return 'kept (%s)' % o.strip().splitlines()[-1][:150]
    finally:
        shutil.rmtree(d)


def attempt(i):
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    d, repo = scratch()
    try:
        rc, o = run(['git', 'apply', os.path.join(V, 'seeded', i, 'patch.diff')], repo)
        if rc:
            return 'patch does not apply: ' + o
        rc, o = run([os.path.join(V, 'run_check.py'), m['property'], '-v'], V, {'VERIF_REPO': repo, 'VERIF_EVIDENCE': d})
        subs = [x.split()[0] for x in o.splitlines() if len(x.split()) > 1 and x.split()[1] == 'violation']
        return '%s: exit %d %s' % (m['property'], rc, ('caught by ' + ', '.join(subs)) if subs else 'MISSED')
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        for f in sys.argv[2:]:
            print(os.path.basename(f), '->', make(f), flush=True)
    else:
        for i in sys.argv[2:] or sorted(os.path.basename(os.path.dirname(x)) for x in glob.glob(V + '/seeded/*/meta.json')):
            print(i, '->', attempt(i), flush=True)
