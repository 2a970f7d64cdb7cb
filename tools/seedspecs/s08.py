id='mirror-cond-block-int'; prop='C05'
needs='MIRROR regularization with reg_adaptive_eps and a non-default reg_max_cond_block'
breaks='the mirror regularization reads the double reg_max_cond_block as an int'
edits=[('acados/ocp_nlp/ocp_nlp_reg_mirror.c','''        double *d_ptr = value;
        opts->max_cond_block = *d_ptr;''','''        int *i_ptr = value;
        opts->max_cond_block = *i_ptr;''')]
lib=True
files={'d.c':r'''#include "ocp_demo.h"
#include "acados/ocp_nlp/ocp_nlp_reg_mirror.h"
#include "acados/ocp_nlp/ocp_nlp_sqp.h"
int main(void){ ocp_nlp_plan_t *p=demo_plan(SQP); p->regularization=MIRROR; demo_ocp a; demo_problem(&a,p);
 void *opts=ocp_nlp_solver_opts_create(a.config,a.dims); double v=12345.0; ocp_nlp_solver_opts_set(a.config,opts,"reg_max_cond_block",&v);
 ocp_nlp_reg_mirror_opts *o=((ocp_nlp_sqp_opts*)opts)->nlp_opts->regularize;
 printf("max_cond_block %g\n",o->max_cond_block); return o->max_cond_block!=12345.0; }
'''}
demo='''. "$(dirname "$0")/cdemo.sh"
build_lib && build_prog "$HERE/d.c" || exit 9
"$W/prog"
'''
