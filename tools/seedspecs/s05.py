id='bgh-dims-get-unknown'; prop='C06'
needs='asking the constraint module for a dimension name it does not know (a misspelt name)'
breaks='a getter answers 0 for an unknown name and returns normally instead of terminating'
edits=[('acados/ocp_nlp/ocp_nlp_constraints_bgh.c','''        printf("\\nerror: ocp_nlp_constraints_bgh_dims_get: field %s not available in module\\n", field);
        exit(1);
''','''        if (strchr(field, '_') == NULL || !strncmp(field, "n", 1))
        {
            *value = 0;
            return;
        }
        printf("\\nerror: ocp_nlp_constraints_bgh_dims_get: field %s not available in module\\n", field);
        exit(1);
''')]
lib=True
files={'d.c':r'''#include "ocp_demo.h"
int main(void){ ocp_nlp_constraints_config *cfg=ocp_nlp_constraints_config_assign(calloc(1,ocp_nlp_constraints_config_calculate_size()));
  ocp_nlp_constraints_bgh_config_initialize_default(cfg,0);
  void *d=cfg->dims_assign(cfg,calloc(1,cfg->dims_calculate_size(cfg))); int v=-1; cfg->dims_get(cfg,d,"nbz",&v); printf("returned %d\n",v); return 0; }
'''}
demo='''. "$(dirname "$0")/cdemo.sh"
build_lib && build_prog "$HERE/d.c" || exit 9
# an unknown name has to end the process with a failure status
"$W/prog" && exit 1
exit 0
'''
