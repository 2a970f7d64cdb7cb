id='sqp-one-qp-more'; prop='C18'
needs='an SQP solve that does not converge within max_iter iterations, with eval_residual_at_max_iter on'
breaks='a QP more than max_iter is solved and the step is applied without its residuals being evaluated'
edits=[('acados/ocp_nlp/ocp_nlp_sqp.c','''    // check for maximum iterations
    if (n_iter >= nlp_opts->max_iter)
''','''    // check for maximum iterations
    if (n_iter > nlp_opts->max_iter)
''')]
lib=True
files={'d.c':r'''#include "ocp_demo.h"
static int n; static int (*ev)(void*,void*,void*,void*,void*,void*,void*,void*,void*);
static int counted(void*a,void*b,void*c,void*d,void*e,void*f,void*g,void*h,void*i){ n++; return ev(a,b,c,d,e,f,g,h,i); }
int main(void){ demo_ocp a; demo_problem(&a,demo_plan(SQP)); bool on=true; ocp_nlp_solver_opts_set(a.config,a.opts,"eval_residual_at_max_iter",&on); int mi=1; ocp_nlp_solver_opts_set(a.config,a.opts,"max_iter",&mi);
 double tol=0.0; ocp_nlp_solver_opts_set(a.config,a.opts,"tol_stat",&tol); demo_create(&a);
 ev=(void*)a.config->qp_solver->evaluate; a.config->qp_solver->evaluate=(void*)counted;
 int st=ocp_nlp_solve(a.s,a.in,a.out); printf("status %d QPs %d\n",st,n); return !(st==ACADOS_MAXITER && n==1); }
'''}
demo='''. "$(dirname "$0")/cdemo.sh"
build_lib && build_prog "$HERE/d.c" || exit 9
"$W/prog"
'''
