id='usg-mask-extent'; prop='C13'
needs='softened general linear constraints (nsg > 0) with a different number of softened state bounds, and an infinite upper-slack lower bound'
breaks='setting usg recomputes the mask for nsbx instead of nsg entries: infinite slack bounds stay active, or a neighbouring mask entry is rewritten'
edits=[('acados/ocp_nlp/ocp_nlp_constraints_bgh.c','''        blasfeo_pack_dvec(nsg, value, 1, &model->d, offset);
        ocp_nlp_constraints_bgh_update_mask_lower(model, nsg, offset);
    }
    else if (!strcmp(field, "idxsh"))''','''        blasfeo_pack_dvec(nsg, value, 1, &model->d, offset);
        ocp_nlp_constraints_bgh_update_mask_lower(model, nsbx, offset);
    }
    else if (!strcmp(field, "idxsh"))''')]
lib=True
files={'d.c':r'''#include "ocp_demo.h"
#include "acados/ocp_nlp/ocp_nlp_constraints_bgh.h"
int main(void){ ocp_nlp_constraints_config *cfg=ocp_nlp_constraints_config_assign(calloc(1,ocp_nlp_constraints_config_calculate_size()));
  ocp_nlp_constraints_bgh_config_initialize_default(cfg,0);
  void *d=cfg->dims_assign(cfg,calloc(1,cfg->dims_calculate_size(cfg)));
  int two=2; cfg->dims_set(cfg,d,"nx",&two); cfg->dims_set(cfg,d,"ng",&two); cfg->dims_set(cfg,d,"nsg",&two); cfg->dims_set(cfg,d,"ns",&two);
  int ni=0; cfg->dims_get(cfg,d,"ni",&ni);
  void *m=cfg->model_assign(cfg,d,calloc(1,cfg->model_calculate_size(cfg,d)));
  struct blasfeo_dvec k; blasfeo_allocate_dvec(64,&k); blasfeo_dvecse(64,1.0,&k,0);
  cfg->model_set_dmask_ptr(&k,m);
  double v[2]={0,-1e10}; cfg->model_set(cfg,d,m,"usg",v);
  int o=2*2+2; /* 2*ng + lower slacks */
  printf("ni %d mask %g %g\n",ni,BLASFEO_DVECEL(&k,o),BLASFEO_DVECEL(&k,o+1));
  return !(BLASFEO_DVECEL(&k,o)==1.0 && BLASFEO_DVECEL(&k,o+1)==0.0); }
'''}
demo='''. "$(dirname "$0")/cdemo.sh"
build_lib && build_prog "$HERE/d.c" || exit 9
"$W/prog"
'''
