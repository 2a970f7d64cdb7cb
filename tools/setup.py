"""setup_cmd: fill the front-end cache (clang ASTs of /repo's current tree). Checks refresh any entry whose sources changed."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import cfront as F
for omp in (True, False):
    try:
        P = F.load(omp=omp)
        print(len(P.tus), 'units parsed, openmp', omp)
    except F.FrontEndError as e:      # the checks report this themselves
        print('front end:', e)
