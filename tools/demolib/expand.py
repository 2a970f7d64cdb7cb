"""usage: expand.py DESCRIPTION OUTDIR   (run in an acados checkout): expands the code templates for one problem description"""
import sys, os, types
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.modules['templates'] = types.ModuleType('templates')
import gen_cfront
sys.modules['cfront'] = gen_cfront
import gen
c = [x for x in gen.configs() if x.name == sys.argv[1]][0]
texts, maps, errs, br = gen.expand(c)
for e in errs:
    print('expansion:', *e)
for o, t in texts.items():
    p = os.path.join(sys.argv[2], o)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, 'w').write(t)
sys.exit(1 if errs else 0)
