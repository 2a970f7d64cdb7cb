id='sqp-maxiter-after-kkt'; prop='C09'
needs='a second solve with max_iter 0 and eval_residual_at_max_iter off after a converged one, with changed data'
breaks='the SQP termination test compares residuals left over from an earlier solve and reports success for a problem that was never evaluated'
M='''    // check for maximum iterations
    if (!nlp_opts->eval_residual_at_max_iter && n_iter >= nlp_opts->max_iter)
    {
        mem->nlp_mem->status = ACADOS_MAXITER;
        if (nlp_opts->print_level > 0)
        {
            printf("Stopped: Maximum iterations reached.\\n");
        }
        return true;
    }

'''
edits=[('acados/ocp_nlp/ocp_nlp_sqp.c',M,''),('acados/ocp_nlp/ocp_nlp_sqp.c','    // check for small step\n',M+'    // check for small step\n')]
lib=True
files={'d.c':r'''#include "ocp_demo.h"
int main(void){ demo_ocp a; demo_problem(&a,demo_plan(SQP)); bool ev=false; ocp_nlp_solver_opts_set(a.config,a.opts,"eval_residual_at_max_iter",&ev); demo_create(&a);
 int st=ocp_nlp_solve(a.s,a.in,a.out); printf("status %d\n",st); if(st) return 9;
 int mi=0; ocp_nlp_solver_opts_set(a.config,a.opts,"max_iter",&mi); double x0[2]={2,0}; ocp_nlp_constraints_model_set(a.config,a.dims,a.in,a.out,0,"lbx",x0);ocp_nlp_constraints_model_set(a.config,a.dims,a.in,a.out,0,"ubx",x0);
 st=ocp_nlp_solve(a.s,a.in,a.out); printf("status %d\n",st); return st!=ACADOS_MAXITER; }
'''}
demo='''. "$(dirname "$0")/cdemo.sh"
build_lib && build_prog "$HERE/d.c" || exit 9
"$W/prog"
'''
