id='bgp0-hess-member'; prop='T34'
needs='constraints of type BGP at the initial stage together with an exact Hessian'
breaks='the generated header no longer declares the capsule member that the generated solver fills in this configuration, so the generated code does not compile'
edits=[('interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.h','''    external_function_external_param_casadi phi_0_constraint_fun_jac_hess;
''','''    {%- if solver_options.hessian_approx != "EXACT" %}
    external_function_external_param_casadi phi_0_constraint_fun_jac_hess;
    {%- endif %}
''')]
lib=True; expand=True
demo='''. "$(dirname "$0")/cdemo.sh"
for c in disc_ext_sens only_phi0s mixed_1; do
  mkdir -p "$W/g/$c"
  python3 -B "$HERE/expand.py" $c "$W/g/$c" || exit 9
  gcc $CF -fsyntax-only -I"$W/g/$c" "$W/g/$c/acados_solver_ocp_x.c" || exit 1
done
exit 0
'''
