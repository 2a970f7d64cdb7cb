// minimal stand-ins for the seed objects missing in the older HPIPM shipped with casadi
#include <string.h>
#include "blasfeo_d_aux.h"
#include "blasfeo_common.h"
#include "blasfeo_d_aux_ext_dep.h"
#include "hpipm/include/hpipm_d_ocp_qp.h"
#include "hpipm_d_ocp_qp_seed.h"
#include "hpipm_d_dense_qp_seed.h"
static hpipm_size_t vs(int n){ return blasfeo_memsize_dvec(n)+64; }
#define NM(d,i) (2*((d)->nb[i]+(d)->ng[i]+(d)->ns[i]))
hpipm_size_t d_ocp_qp_seed_memsize(struct d_ocp_qp_dim *d){ hpipm_size_t s=128+4*(d->N+1)*sizeof(struct blasfeo_dvec); for(int i=0;i<=d->N;i++) s+=vs(d->nu[i]+d->nx[i]+2*d->ns[i])+vs(i<d->N?d->nx[i+1]:0)+2*vs(NM(d,i)); return s; }
void d_ocp_qp_seed_create(struct d_ocp_qp_dim *d, struct d_ocp_qp_seed *s, void *mem){ s->dim=d; s->memsize=d_ocp_qp_seed_memsize(d); struct blasfeo_dvec *v=mem; int n=d->N+1; s->seed_g=v; s->seed_b=v+n; s->seed_d=v+2*n; s->seed_m=v+3*n; char *c=(char*)(v+4*n); c=(char*)(((size_t)c+63)/64*64);
 for(int i=0;i<n;i++){ int z[4]={d->nu[i]+d->nx[i]+2*d->ns[i], i<d->N?d->nx[i+1]:0, NM(d,i), NM(d,i)}; for(int j=0;j<4;j++){ blasfeo_create_dvec(z[j], v+j*n+i, c); c+=blasfeo_memsize_dvec(z[j]); c=(char*)(((size_t)c+63)/64*64);} } d_ocp_qp_seed_set_zero(s);}
void d_ocp_qp_seed_set_zero(struct d_ocp_qp_seed *s){ int n=s->dim->N+1; for(int i=0;i<4*n;i++) blasfeo_dvecse(s->seed_g[i].m,0.0,s->seed_g+i,0); }
hpipm_size_t d_dense_qp_seed_memsize(struct d_dense_qp_dim *d){ int m=2*(d->nb+d->ng+d->ns); return 128+4*sizeof(struct blasfeo_dvec)+vs(d->nv+2*d->ns)+vs(d->ne)+2*vs(m); }
void d_dense_qp_seed_create(struct d_dense_qp_dim *d, struct d_dense_qp_seed *s, void *mem){ s->dim=d; struct blasfeo_dvec *v=mem; int m=2*(d->nb+d->ng+d->ns); int z[4]={d->nv+2*d->ns,d->ne,m,m}; s->seed_g=v; s->seed_b=v+1; s->seed_d=v+2; s->seed_m=v+3; char *c=(char*)(v+4); c=(char*)(((size_t)c+63)/64*64); for(int j=0;j<4;j++){ blasfeo_create_dvec(z[j],v+j,c); c+=blasfeo_memsize_dvec(z[j]); c=(char*)(((size_t)c+63)/64*64);} d_dense_qp_seed_set_zero(s);}
void d_dense_qp_seed_set_zero(struct d_dense_qp_seed *s){ for(int i=0;i<4;i++) blasfeo_dvecse(s->seed_g[i].m,0.0,s->seed_g+i,0); }
