id='bgh-C-heap-copy'; prop='C02'
needs='setting the general linear constraint matrix C of a stage after the solver has been created (no other field)'
breaks='a setter of the constraint module allocates and frees a heap buffer on every call although only creation may use the heap'
edits=[('acados/ocp_nlp/ocp_nlp_constraints_bgh.c','''    else if (!strcmp(field, "C"))
    {
        blasfeo_pack_tran_dmat(ng, nx, value, ng, &model->DCt, nu, 0);
    }''','''    else if (!strcmp(field, "C"))
    {
        double *C_tran = acados_malloc(ng*nx+1, sizeof(double));
        double *ptr_d = (double *) value;
        for (ii = 0; ii < ng*nx; ii++)
            C_tran[(ii%ng)*nx + ii/ng] = ptr_d[ii];
        blasfeo_pack_dmat(nx, ng, C_tran, nx, &model->DCt, nu, 0);
        free(C_tran);
    }''')]
lib=True
files={'d.c':r'''#include "ocp_demo.h"
#include <dlfcn.h>
#include <string.h>
static int armed, hits;
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t);
static void chk(void *ra){ Dl_info i; if (armed && dladdr(ra,&i) && i.dli_fname && strstr(i.dli_fname,"libacados.so")) hits++; }
void *malloc(size_t n){ chk(__builtin_return_address(0)); return __libc_malloc(n); }
void *calloc(size_t a,size_t b){ chk(__builtin_return_address(0)); return __libc_calloc(a,b); }
int main(void){
  ocp_nlp_plan_t *p=demo_plan(SQP); (void)p;
  
  ocp_nlp_constraints_config *cfg=ocp_nlp_constraints_config_assign(calloc(1,ocp_nlp_constraints_config_calculate_size()));
  ocp_nlp_constraints_bgh_config_initialize_default(cfg,0);
  void *d=cfg->dims_assign(cfg,calloc(1,cfg->dims_calculate_size(cfg)));
  int nx=3,nu=1,ng=2; cfg->dims_set(cfg,d,"nx",&nx);cfg->dims_set(cfg,d,"nu",&nu);cfg->dims_set(cfg,d,"ng",&ng);
  void *m=cfg->model_assign(cfg,d,calloc(1,cfg->model_calculate_size(cfg,d)));
  double C[6]={1,2,3,4,5,6},D[2]={7,8},o[6];
  armed=1; cfg->model_set(cfg,d,m,"D",D); cfg->model_set(cfg,d,m,"C",C); cfg->model_get(cfg,d,m,"C",o); armed=0;
  for(int i=0;i<6;i++) if(o[i]!=C[i]) { printf("value lost\n"); return 2; }
  printf("heap calls from the library after creation: %d\n",hits); return hits!=0; }
'''}
demo='''. "$(dirname "$0")/cdemo.sh"
build_lib && build_prog -D_GNU_SOURCE "$HERE/d.c" -ldl || exit 9
"$W/prog"
'''
