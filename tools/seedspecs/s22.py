id='sim-jacp-leak'; prop='T30'
needs='an IRK integrator with forward sensitivities with respect to parameters and without an exact Hessian'
breaks='the function object for the parameter Jacobian is created but neither it nor its block is released when the integrator is freed'
edits=[('interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c','''    {% if code_gen_options.sens_forw_p %}
        external_function_param_{{ model.dyn_ext_fun_type }}_free(capsule->sim_impl_dae_jac_p);
    {% endif %}
    free(capsule->sim_impl_dae_fun);
    free(capsule->sim_impl_dae_fun_jac_x_xdot_z);
    free(capsule->sim_impl_dae_jac_x_xdot_u_z);
    {% if code_gen_options.sens_forw_p %}
        free(capsule->sim_impl_dae_jac_p);
    {% endif %}
{%- if hessian_approx == "EXACT" %}
''','''    free(capsule->sim_impl_dae_fun);
    free(capsule->sim_impl_dae_fun_jac_x_xdot_z);
    free(capsule->sim_impl_dae_jac_x_xdot_u_z);
{%- if hessian_approx == "EXACT" %}
    {% if code_gen_options.sens_forw_p %}
    external_function_param_{{ model.dyn_ext_fun_type }}_free(capsule->sim_impl_dae_jac_p);
    free(capsule->sim_impl_dae_jac_p);
    {% endif %}
''')]
lib=True; expand=True
files={'count.py':r'''import re, subprocess, sys
# stand-ins for everything the generated unit calls in the library: objects are a zeroed buffer, create/free of function objects are counted
obj, out = sys.argv[1:]
und = [l.split()[-1] for l in subprocess.run(['nm', '-u', obj], capture_output=True, text=True, check=True).stdout.splitlines()]
libc = {'printf', 'exit', 'memcpy', 'memset', 'puts', 'putchar', '_GLOBAL_OFFSET_TABLE_', '__stack_chk_fail', 'strcmp', 'sprintf', 'strlen', 'fprintf', 'stderr'}
L = ['#undef malloc', '#undef free', '#include <stdio.h>', '#include <stdlib.h>', '#include "acados/utils/external_function_generic.h"', 'static void nop(void) {}',
     'static long live, objs, bad;',
     'void *cnt_malloc(size_t n) { live++; return calloc(1, n + 8); }',
     'void *cnt_calloc(size_t n, size_t m) { live++; return calloc(n, m + 8); }',
     'void cnt_free(void *p) { if (p) { live--; free(p); } }']
G = ['static int nop(void) { return 0; } static void *buf[1 << 13] = {[0 ... (1 << 13) - 1] = (void *) nop};']
for u in sorted(set(und)):
    if u in libc or u.startswith('cnt_'):
        continue
    if re.match(r'external_function_\w+_create$', u):
        t = u[:-len('_create')]
        L.append('void %s(%s *f, int np, external_function_opts *o) { f->set_param = (void *) nop; objs++; }' % (u, t))
    elif re.match(r'external_function_\w+_free$', u):
        L.append('void %s(%s *f) { objs--; }' % (u, u[:-len('_free')]))
    else:
        G.append('void *%s(void) { return buf; }' % u)
L += ['void *ocp_x_acados_sim_solver_create_capsule(void); int ocp_x_acados_sim_create(void *); int ocp_x_acados_sim_free(void *); int ocp_x_acados_sim_solver_free_capsule(void *);',
      'int main(void) { void *c = ocp_x_acados_sim_solver_create_capsule(); ocp_x_acados_sim_create(c); ocp_x_acados_sim_free(c); ocp_x_acados_sim_solver_free_capsule(c);',
      '  printf("blocks left %ld, function objects left %ld\\n", live, objs); return live || objs; }']
open(out, 'w').write('\n'.join(L) + '\n')
open(out[:-2] + '_g.c', 'w').write('\n'.join(G) + '\n')
'''}
demo='''. "$(dirname "$0")/cdemo.sh"
for c in irk_p_nls sim_irk_1 sim_irk_0 sim_erk_1 sim_gnsf_0; do
  mkdir -p "$W/g/$c"
  python3 -B "$HERE/expand.py" $c "$W/g/$c" || exit 9
  gcc $CF -w -include stdlib.h -Dmalloc=cnt_malloc -Dcalloc=cnt_calloc -Dfree=cnt_free -I"$W/g/$c" -c "$W/g/$c/acados_sim_solver_ocp_x.c" -o "$W/g/$c/u.o" || exit 9
  python3 -B "$HERE/count.py" "$W/g/$c/u.o" "$W/g/$c/m.c" || exit 9
  gcc -w -fno-builtin $CF "$W/g/$c/m.c" "$W/g/$c/m_g.c" "$W/g/$c/u.o" -o "$W/g/$c/m" || exit 9
  "$W/g/$c/m" || { echo "$c leaks"; exit 1; }
done
exit 0
'''
