id='funnel-default-lost'; prop='C04'
needs='using the funnel globalization without ever setting funnel_sufficient_decrease_factor by name'
breaks='an option that the funnel line search reads is left without a default unless another option has a particular value'
edits=[('acados/ocp_nlp/ocp_nlp_globalization_funnel.c','''    opts->sufficient_decrease_factor = 0.9;
    opts->kappa = 0.9;''','''    if (globalization_opts->use_SOC)
        opts->sufficient_decrease_factor = 0.9;
    opts->kappa = 0.9;''')]
lib=True
files={'d.c':r'''#include "ocp_demo.h"
#include <string.h>
#include "acados/ocp_nlp/ocp_nlp_globalization_funnel.h"
int main(void){ ocp_nlp_plan_t *p=demo_plan(SQP); p->globalization=FUNNEL_L1PEN_LINESEARCH; demo_ocp a; demo_problem(&a,p);
 ocp_nlp_globalization_config *g=a.config->globalization; size_t n=g->opts_calculate_size(a.config,a.dims); char *raw=malloc(n); memset(raw,0x5a,n);
 ocp_nlp_globalization_funnel_opts *o=g->opts_assign(a.config,a.dims,raw); g->opts_initialize_default(g,a.dims,o);
 printf("default %g\n",o->sufficient_decrease_factor); return !(o->sufficient_decrease_factor>0.0 && o->sufficient_decrease_factor<1.0); }
'''}
demo='''. "$(dirname "$0")/cdemo.sh"
build_lib && build_prog "$HERE/d.c" || exit 9
"$W/prog"
'''
