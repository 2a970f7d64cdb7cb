id='irk-sens-p-size'; prop='C01'
needs='an implicit integrator with parameter sensitivities but without forward state sensitivities'
breaks='the IRK memory query leaves out the parameter-sensitivity matrix that the setup step still places in the block'
edits=[('acados/sim/sim_irk_integrator.c','''    if (opts->sens_forw_p)
    {
        size += 1 * blasfeo_memsize_dmat(nx, dims->np);''','''    if (opts->sens_forw_p && opts->sens_forw)
    {
        size += 1 * blasfeo_memsize_dmat(nx, dims->np);''')]
lib=True
files={'d.c':r'''#include <stdio.h>
#include <stdlib.h>
#include "acados_c/sim_interface.h"
#include "acados/sim/sim_irk_integrator.h"
int main(void){ sim_solver_plan_t plan={IRK}; sim_config *c=sim_config_create(plan); void *d=sim_dims_create(c); int nx=4,nu=1,nz=0,np=3;
 sim_dims_set(c,d,"nx",&nx); sim_dims_set(c,d,"nu",&nu); sim_dims_set(c,d,"nz",&nz); sim_dims_set(c,d,"np",&np);
 sim_opts *o=sim_opts_create(c,d); bool on=true,off=false; sim_opts_set(c,o,"sens_forw",&off); sim_opts_set(c,o,"sens_forw_p",&on);
 size_t n=sim_irk_memory_calculate_size(c,d,o); char *raw=malloc(n+100000); sim_irk_memory *m=sim_irk_memory_assign(c,d,o,raw);
 double *last=m->xdot+nx; char *e=(char*)last; char *pe=(char*)m->S_p->mem+m->S_p->memsize; if(pe>e) e=pe; printf("size %zu used %zu\n",n,(size_t)(e-raw)); return e>raw+n; }
'''}
demo='''. "$(dirname "$0")/cdemo.sh"
build_lib && build_prog "$HERE/d.c" || exit 9
"$W/prog"
'''
