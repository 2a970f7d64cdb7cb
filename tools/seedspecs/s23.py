id='mocp-qp-tol-min'; prop='T32'
needs='a multi-phase problem with the adaptive QP tolerance strategy and different floors for the stationarity and equality tolerances'
breaks='the multi-phase solver gives the floor of the stationarity tolerance to the library as floor of the equality tolerance; the single-phase solver generated from the same options does not'
edits=[('interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c','"nlp_qp_tol_min_eq", &nlp_qp_tol_min_eq','"nlp_qp_tol_min_eq", &nlp_qp_tol_min_stat')]
lib=True; expand=True
files={'exp2.py':r'''import sys, os, types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.modules['templates'] = types.ModuleType('templates')
import gen_cfront
sys.modules['cfront'] = gen_cfront
import gen
name, out = sys.argv[1:]
c = [x for x in gen.configs() if x.name == name][0]
for i, k in enumerate(('stat', 'eq', 'ineq', 'comp')):
    c.d['solver_options.nlp_qp_tol_min_' + k] = 0.25 * (i + 1)
texts, maps, errs, br = gen.expand(c)
for o, t in texts.items():
    p = os.path.join(out, o)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, 'w').write(t)
sys.exit(1 if errs else 0)
''','stubs.py':r'''import re, subprocess, sys
obj, out = sys.argv[1:]
und = [l.split()[-1] for l in subprocess.run(['nm', '-u', obj], capture_output=True, text=True, check=True).stdout.splitlines()]
libc = {'printf', 'exit', 'memcpy', 'memset', 'puts', 'putchar', '_GLOBAL_OFFSET_TABLE_', '__stack_chk_fail', 'strcmp', 'sprintf', 'strlen', 'fprintf', 'stderr', 'malloc', 'calloc', 'free', '__assert_fail', 'fabs', '__printf_chk'}
T = {'ocp_nlp_plan_create': """#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include "acados_c/ocp_nlp_interface.h"
ocp_nlp_plan_t *ocp_nlp_plan_create(int N) { ocp_nlp_plan_t *p = calloc(1, sizeof(*p)); p->N = N; p->nlp_dynamics = calloc(N + 2, 64); p->nlp_cost = calloc(N + 2, 64);
  p->nlp_constraints = calloc(N + 2, 64); p->sim_solver_plan = calloc(N + 2, sizeof(*p->sim_solver_plan)); return p; }
static int seen, bad;
void ocp_nlp_solver_opts_set(ocp_nlp_config *c, void *o, const char *f, void *v) {
  const char *n[] = {"stat", "eq", "ineq", "comp"};
  for (int i = 0; i < 4; i++) { char b[64]; sprintf(b, "nlp_qp_tol_min_%s", n[i]); if (!strcmp(f, b)) { seen++; printf("%s %g\\n", f, *(double *) v); if (*(double *) v != 0.25 * (i + 1)) bad = 1; } } }
int ocp_nlp_precompute(ocp_nlp_solver *a, ocp_nlp_in *b, ocp_nlp_out *c) { exit(bad || seen < 4); }
void *ocp_x_acados_create_capsule(void); int ocp_x_acados_create(void *);
int main(void) { ocp_x_acados_create(ocp_x_acados_create_capsule()); return bad || seen < 4; }
"""}
G = ['static int nop(void) { return 0; } static void *buf[1 << 13] = {[0 ... (1 << 13) - 1] = (void *) nop};']
for u in sorted(set(und)):
    if u not in libc and u not in ('ocp_nlp_plan_create', 'ocp_nlp_precompute', 'ocp_nlp_solver_opts_set'):
        G.append('void *%s(void) { return buf; }' % u)
open(out, 'w').write(T['ocp_nlp_plan_create'])
open(out[:-2] + '_g.c', 'w').write('\n'.join(G) + '\n')
'''}
demo='''. "$(dirname "$0")/cdemo.sh"
for c in minimal mocp_min; do
  mkdir -p "$W/g/$c"
  python3 -B "$HERE/exp2.py" $c "$W/g/$c" || exit 9
  gcc $CF -w -fno-builtin -include stdlib.h -I"$W/g/$c" -c "$W/g/$c/acados_solver_ocp_x.c" -o "$W/g/$c/u.o" || exit 9
  python3 -B "$HERE/stubs.py" "$W/g/$c/u.o" "$W/g/$c/m.c" || exit 9
  gcc -w -fno-builtin $CF "$W/g/$c/m.c" "$W/g/$c/m_g.c" "$W/g/$c/u.o" -lm -o "$W/g/$c/m" || exit 9
  "$W/g/$c/m" || { echo "$c: wrong option value"; exit 1; }
done
exit 0
'''
