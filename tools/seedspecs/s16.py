id='sqp-qpfail-threads'; prop='C12'
needs='an OpenMP build with a thread limit different from the caller setting, a failing QP and a print level of at most 3'
breaks='after a QP failure the SQP solver leaves the OpenMP thread count of the calling thread at its own value'
edits=[('acados/ocp_nlp/ocp_nlp_sqp.c','''#if defined(ACADOS_WITH_OPENMP)
            // restore number of threads
            omp_set_num_threads(num_threads_bkp);
#endif
            if (nlp_opts->print_level > 3)
            {
''','''            if (nlp_opts->print_level > 3)
            {
#if defined(ACADOS_WITH_OPENMP)
                // restore number of threads
                omp_set_num_threads(num_threads_bkp);
#endif
''')]
lib=True
files={'d.c':r'''#include "ocp_demo.h"
#include <omp.h>
static int bad(void*c,void*d,void*i,void*o,void*p,void*m,void*w,void*s,void*s2){ return ACADOS_QP_FAILURE; }
int main(void){ ocp_nlp_plan_t *p=demo_plan(SQP); demo_ocp a; demo_problem(&a,p); int nt=1; ocp_nlp_solver_opts_set(a.config,a.opts,"num_threads",&nt); demo_create(&a);
 omp_set_num_threads(3); int st=ocp_nlp_solve(a.s,a.in,a.out); printf("status %d threads %d\n",st,omp_get_max_threads()); if(omp_get_max_threads()!=3) return 1;
 a.config->qp_solver->evaluate=(void*)bad; double x0[2]={2,0}; ocp_nlp_constraints_model_set(a.config,a.dims,a.in,a.out,0,"lbx",x0);ocp_nlp_constraints_model_set(a.config,a.dims,a.in,a.out,0,"ubx",x0);
 st=ocp_nlp_solve(a.s,a.in,a.out); printf("status %d threads %d\n",st,omp_get_max_threads()); return omp_get_max_threads()!=3; }
'''}
demo='''. "$(dirname "$0")/cdemo.sh"
build_lib && build_prog "$HERE/d.c" || exit 9
"$W/prog"
'''
