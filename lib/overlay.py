"""Make /repo's `wilson` importable although its submodule wilson/wcxf/bases is empty.

A temporary tree of symbolic links is built: every entry points at the real file in
/repo (so /repo's current working tree is what runs), only `wilson/wcxf/bases` points at
the basis definitions in /verif/fixtures/bases.  Nothing is written to /repo.
"""
import atexit
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
FIXTURES = os.path.join(HERE, '..', 'fixtures', 'bases')
REPO = os.environ.get('VERIF_REPO', '/repo')
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def build_tree(repo=REPO, fixtures=FIXTURES):
    top = tempfile.mkdtemp(prefix='wilson_overlay_')
    src = os.path.join(repo, 'wilson')
    dst = os.path.join(top, 'wilson')
    os.mkdir(dst)
    for name in os.listdir(src):
        if name not in ('wcxf', '__pycache__'):
            os.symlink(os.path.join(src, name), os.path.join(dst, name))
    os.mkdir(os.path.join(dst, 'wcxf'))
    for name in os.listdir(os.path.join(src, 'wcxf')):
        if name not in ('bases', '__pycache__'):
            os.symlink(os.path.join(src, 'wcxf', name), os.path.join(dst, 'wcxf', name))
    os.symlink(os.path.abspath(fixtures), os.path.join(dst, 'wcxf', 'bases'))
    return top


def activate(repo=REPO):
    top = build_tree(repo)
    atexit.register(shutil.rmtree, top, ignore_errors=True)
    sys.dont_write_bytecode = True
    sys.path.insert(0, top)
    if VT_SITE not in sys.path:
        sys.path.append(VT_SITE)
    return top
