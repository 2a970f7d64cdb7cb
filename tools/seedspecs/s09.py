id='bgp-usphi-typo'; prop='T31'
needs='a convex-over-nonlinear (BGP) constraint with soft constraints, i.e. nsphi > 0'
breaks='the BGP constraint module no longer accepts usphi, which generated solvers set for soft convex-over-nonlinear constraints'
edits=[('acados/ocp_nlp/ocp_nlp_constraints_bgp.c','''    else if (!strcmp(field, "usphi"))
    {
        offset''','''    else if (!strcmp(field, "uspsi"))
    {
        offset''')]
lib=True
files={'d.c':r'''#include "ocp_demo.h"
#include "acados/ocp_nlp/ocp_nlp_constraints_bgp.h"
int main(void){ ocp_nlp_constraints_config *cfg=ocp_nlp_constraints_config_assign(calloc(1,ocp_nlp_constraints_config_calculate_size()));
  ocp_nlp_constraints_bgp_config_initialize_default(cfg,0);
  void *d=cfg->dims_assign(cfg,calloc(1,cfg->dims_calculate_size(cfg)));
  void *raw=calloc(1,cfg->model_calculate_size(cfg,d)); void *m=cfg->model_assign(cfg,d,raw); double v[1]={0};
  cfg->model_set(cfg,d,m,"lsphi",v); cfg->model_set(cfg,d,m,"usphi",v); printf("both set\n"); return 0; }
'''}
demo='''. "$(dirname "$0")/cdemo.sh"
build_lib && build_prog "$HERE/d.c" || exit 9
"$W/prog"
'''
