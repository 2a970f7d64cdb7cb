id='qp-b-dims'; prop='C15'
needs='state dimensions that differ between neighbouring stages (multi-phase problems) and reading the QP matrix B'
breaks='the size reported for B uses the state dimension of the stage itself instead of the next one'
edits=[('interfaces/acados_c/ocp_nlp_interface.c','''        dims_out[0] = dims->nx[stage+1];
        dims_out[1] = dims->nu[stage];''','''        dims_out[0] = dims->nx[stage];
        dims_out[1] = dims->nu[stage];''')]
lib=True
files={'d.c':r'''#include "ocp_demo.h"
int main(void){ ocp_nlp_plan_t *p=demo_plan(SQP); ocp_nlp_config *c=ocp_nlp_config_create(*p); ocp_nlp_dims *d=ocp_nlp_dims_create(c);
 int nx[6]={2,3,1,4,2,3},nu[6]={1,2,1,3,1,0};
 ocp_nlp_dims_set_opt_vars(c,d,"nx",nx); ocp_nlp_dims_set_opt_vars(c,d,"nu",nu);
 int bad=0; for(int i=0;i<5;i++){ int o[2]; ocp_nlp_qp_dims_get_from_attr(c,d,NULL,i,"B",o); printf("%dx%d ",o[0],o[1]); bad|=o[0]*o[1]!=nx[i+1]*nu[i]; } printf("\n"); return bad; }
'''}
demo='''. "$(dirname "$0")/cdemo.sh"
build_lib && build_prog "$HERE/d.c" || exit 9
"$W/prog"
'''
