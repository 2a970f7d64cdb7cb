#!/usr/bin/env python3
"""development helper: run one check on a scratch copy of /repo with textual edits.
usage: mut.py ID file 'old' 'new' [file old new ...]   (old may be 're:<regex>')"""
import sys, os, shutil, subprocess, tempfile, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '/tmp/mutbase'
def main():
    pid = sys.argv[1]
    ed = sys.argv[2:]
    d = '/tmp/mutwork'
    os.makedirs(d, exist_ok=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude=.git', '--exclude=_build', '--exclude=examples', '--exclude=external', '/repo/', d + '/'], check=True)
    for i in range(0, len(ed), 3):
        p = os.path.join(d, ed[i]); s = open(p).read()
        if ed[i + 1].startswith('re:'):
            s2, n = re.subn(ed[i + 1][3:], ed[i + 2], s, count=1, flags=re.S)
        else:
            n = s.count(ed[i + 1]); s2 = s.replace(ed[i + 1], ed[i + 2], 1)
        if not n:
            print('EDIT NOT APPLIED', ed[i]); sys.exit(3)
        open(p, 'w').write(s2)
    r = subprocess.run([sys.executable, os.path.join(V, 'checks', 'run.py'), pid], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
    print('rc', r.returncode, (r.stdout + r.stderr)[:int(os.environ.get('W', '700'))])
main()
