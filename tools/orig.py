"""Which planted bugs change a line of the original repository (not only lines added by fix commits)?"""
import glob
import os
import re
import subprocess
BASE = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.split('\n')
BASE = [x.split()[0] for x in BASE if x and not x.split(' ', 1)[1].startswith('fix:')][0]
for f in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    path, ok = None, False
    for line in open(f):
        m = re.match(r'--- a/(.*)', line)
        if m:
            path = m.group(1)
            orig = subprocess.run(['git', '-C', '/repo', 'show', '%s:%s' % (BASE, path)], capture_output=True, text=True).stdout.split('\n')
        elif line.startswith('-') and line[1:].rstrip('\n') in orig and line[1:].strip():
            ok = True
    if not ok:
        print(os.path.basename(os.path.dirname(f)), 'changes no original line')
