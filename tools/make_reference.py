"""Development tool: (re)create /verif/reference/refwilson, the pinned reference model.

It is a copy of the non-test modules of wilson at a given commit of /repo (default: HEAD)
under another package name, so that it can be loaded in the same process as the code under
test.  Checks never run this; the output is committed.
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile

REV = sys.argv[1] if len(sys.argv) > 1 else 'HEAD'
DST = '/verif/reference/refwilson'
tmp = tempfile.mkdtemp()
subprocess.check_call(f'git -C /repo archive {REV} wilson | tar x -C {tmp}', shell=True)
shutil.rmtree(DST, ignore_errors=True)
src = os.path.join(tmp, 'wilson')
for root, dirs, files in os.walk(src):
    rel = os.path.relpath(root, src)
    dirs[:] = [d for d in dirs if d not in ('tests', '__pycache__', 'bases')]
    if rel.startswith('wcxf/data'):
        continue
    os.makedirs(os.path.join(DST, rel), exist_ok=True)
    for f in files:
        if f.startswith('test_') or f == '_version.py' and False:
            continue
        p = os.path.join(root, f)
        if f.endswith('.py'):
            t = open(p).read()
            t = re.sub(r'\bwilson\b', 'refwilson', t)
            open(os.path.join(DST, rel, f), 'w').write(t)
        else:
            shutil.copy(p, os.path.join(DST, rel, f))
os.symlink('../../../fixtures/bases', os.path.join(DST, 'wcxf', 'bases'))
shutil.rmtree(tmp)
