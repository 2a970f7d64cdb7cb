#!/usr/bin/env python3
"""development helper: builds /verif/seeded/<id> from a spec file and checks it.
usage: mkseed.py spec.py   (spec defines id, prop, needs, breaks, edits=[(file, old, new)], demo (sh text), files={name: text}, lib=bool)"""
import sys, os, subprocess, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = dict(lib=False, files={}, expand=False)
exec(open(sys.argv[1]).read(), g)
WT = '/tmp/seedwt'
d = os.path.join(V, 'seeded', g['id'])
if os.path.exists(d): shutil.rmtree(d)
os.makedirs(d)
if not os.path.exists(WT):
    subprocess.run(['cp', '-a', '/repo', WT], check=True)
subprocess.run('git checkout -q -f . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', shell=True, cwd=WT, check=True)
for f, o, n in g['edits']:
    p = os.path.join(WT, f); s = open(p).read()
    if s.count(o) != 1:
        print('EDIT matches', s.count(o), f, repr(o[:60])); sys.exit(2)
    open(p, 'w').write(s.replace(o, n))
diff = subprocess.run(['git', 'diff'], cwd=WT, capture_output=True, text=True).stdout
open(d + '/patch.diff', 'w').write(diff)
json.dump(dict(property=g['prop'], needs=g['needs'], what_it_breaks=g['breaks']), open(d + '/meta.json', 'w'), indent=1)
if g['lib']:
    for f in ('cdemo.sh', 'seed_impl.c', 'hpipm_shim.h', 'hpipm_d_ocp_qp_seed.h', 'hpipm_d_dense_qp_seed.h', 'ocp_demo.h'):
        shutil.copy(os.path.join(V, 'tools/demolib', f), d)
if g['expand']:
    for f in ('tools/demolib/expand.py', 'tools/demolib/gen_cfront.py', 'lib/gen.py', 'lib/render.py', 'lib/tera.py'):
        shutil.copy(os.path.join(V, f), d)
for n, t in g['files'].items():
    open(os.path.join(d, n), 'w').write(t)
open(d + '/demo.sh', 'w').write(g['demo'])
tmp = '/tmp/seeddemo'
shutil.rmtree(tmp, ignore_errors=True); shutil.copytree(d, tmp)
r1 = subprocess.run(['bash', tmp + '/demo.sh'], cwd=WT, capture_output=True, text=True)
subprocess.run(['git', 'stash', '-q'], cwd=WT)
r0 = subprocess.run(['bash', tmp + '/demo.sh'], cwd=WT, capture_output=True, text=True)
subprocess.run(['git', 'stash', 'drop', '-q'], cwd=WT)
print('clean rc', r0.returncode, (r0.stdout + r0.stderr)[-300:].strip()); print('patched rc', r1.returncode, (r1.stdout + r1.stderr)[-400:].strip())
# the check on the patched tree
subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=WT, check=True)
c = subprocess.run([sys.executable, os.path.join(V, 'checks/run.py'), g['prop']], env=dict(os.environ, VERIF_REPO=WT), capture_output=True, text=True)
print('check rc', c.returncode, (c.stdout + c.stderr)[-600:])
subprocess.run(['git', 'checkout', '-q', '.'], cwd=WT)
