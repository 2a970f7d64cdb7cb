id='get-all-su-offset'; prop='C14'
needs='a problem with slack variables and reading the upper slacks of all stages at once (get_flat("su"))'
breaks='the whole-horizon getter of su reads from the offset of the lower slacks'
edits=[('interfaces/acados_c/ocp_nlp_interface.c','''            tmp_int = dims->ns[stage];
            blasfeo_unpack_dvec(tmp_int, &out->ux[stage], dims->nu[stage] + dims->nx[stage] + dims->ns[stage],
                                (double_values + tmp_offset), 1);''','''            tmp_int = dims->ns[stage];
            blasfeo_unpack_dvec(tmp_int, &out->ux[stage], dims->nv[stage] - 2 * dims->ns[stage],
                                (double_values + tmp_offset), 1);''')]
lib=True
files={'d.c':r'''#include "ocp_demo.h"
int main(void){ ocp_nlp_plan_t *p=demo_plan(SQP); ocp_nlp_config *c=ocp_nlp_config_create(*p); ocp_nlp_dims *d=ocp_nlp_dims_create(c);
 int nx[6]={2,2,2,2,2,2},nu[6]={1,1,1,1,1,0},ns[6]={0,2,1,0,1,2},z[6]={0};
 ocp_nlp_dims_set_opt_vars(c,d,"nx",nx); ocp_nlp_dims_set_opt_vars(c,d,"nu",nu); ocp_nlp_dims_set_opt_vars(c,d,"nz",z); ocp_nlp_dims_set_opt_vars(c,d,"ns",ns);
 ocp_nlp_in *in=ocp_nlp_in_create(c,d); ocp_nlp_out *out=ocp_nlp_out_create(c,d);
 double v[2]={0,0}, w[6]; int k=0;
 for(int i=0;i<=5;i++){ for(int j=0;j<2;j++) v[j]=-1; ocp_nlp_out_set(c,d,out,in,i,"sl",v); for(int j=0;j<ns[i];j++) v[j]=10+k++; ocp_nlp_out_set(c,d,out,in,i,"su",v); }
 ocp_nlp_solver s={0}; s.config=c; s.dims=d; ocp_nlp_get_all(&s,in,out,"su",w);
 int bad=0; for(int i=0;i<6;i++){ printf("%g ",w[i]); bad|=w[i]!=10+i; } printf("\n"); return bad; }
'''}
demo='''. "$(dirname "$0")/cdemo.sh"
build_lib && build_prog "$HERE/d.c" || exit 9
"$W/prog"
'''
