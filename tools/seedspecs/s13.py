id='reg-ng-last-set'; prop='C17'
needs='a stage with both general linear and nonlinear constraints, and a regularization that uses the constraint multipliers'
breaks='the regularization module keeps only the constraint count set last instead of ng + nh'
edits=[('acados/ocp_nlp/ocp_nlp_common.c','''config->regularize->dims_set(config->regularize, dims->regularize, i, "ng", &ng_qp_solver);''','''config->regularize->dims_set(config->regularize, dims->regularize, i, "ng", int_value);''')]
lib=True
files={'d.c':r'''#include "ocp_demo.h"
#include "acados/ocp_nlp/ocp_nlp_reg_common.h"
int main(void){ ocp_nlp_plan_t *p=demo_plan(SQP); ocp_nlp_config *c=ocp_nlp_config_create(*p); ocp_nlp_dims *d=ocp_nlp_dims_create(c);
 int nx[6]={2,2,2,2,2,2},nu[6]={1,1,1,1,1,0},a=2,b=3; ocp_nlp_dims_set_opt_vars(c,d,"nx",nx); ocp_nlp_dims_set_opt_vars(c,d,"nu",nu);
 ocp_nlp_dims_set_constraints(c,d,1,"ng",&a); ocp_nlp_dims_set_constraints(c,d,1,"nh",&b);
 ocp_nlp_reg_dims *r=d->regularize; printf("ng %d\n",r->ng[1]); return r->ng[1]!=5; }
'''}
demo='''. "$(dirname "$0")/cdemo.sh"
build_lib && build_prog "$HERE/d.c" || exit 9
"$W/prog"
'''
