id='convexify-rhs-slot'; prop='C03'
needs='selecting the convexify regularization together with the real-time iteration solver (split preparation/feedback calls)'
breaks='one operation of the convexify regularization module is never installed although the real-time iteration calls it'
edits=[('acados/ocp_nlp/ocp_nlp_reg_convexify.c','''    config->regularize_lhs = &ocp_nlp_reg_convexify_regularize_lhs;
    config->regularize_rhs = &ocp_nlp_reg_convexify_regularize_rhs;
''','''    config->regularize_lhs = &ocp_nlp_reg_convexify_regularize_lhs;
''')]
lib=True
files={'d.c':r'''#include "ocp_demo.h"
int main(void){ demo_ocp a; ocp_nlp_plan_t *p=demo_plan(SQP_RTI); p->regularization=CONVEXIFY; demo_problem(&a,p); demo_create(&a);
 int ph=1; ocp_nlp_solver_opts_set(a.config,a.opts,"rti_phase",&ph); int st=ocp_nlp_solve(a.s,a.in,a.out); printf("preparation %d\n",st);fflush(stdout);
 ph=2; ocp_nlp_solver_opts_set(a.config,a.opts,"rti_phase",&ph); st=ocp_nlp_solve(a.s,a.in,a.out); printf("feedback %d\n",st); return st!=0; }
'''}
demo='''. "$(dirname "$0")/cdemo.sh"
build_lib && build_prog "$HERE/d.c" || exit 9
"$W/prog"
'''
