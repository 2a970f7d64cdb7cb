id='iterates-one-short'; prop='C01'
needs='creating a solver with store_iterates switched on'
breaks='the memory query reserves one stored iterate less than the setup step hands out, so the block of the solver is overrun'
edits=[('acados/ocp_nlp/ocp_nlp_common.c','''        for (int i = 0; i <= opts->max_iter; i++)
        {
            size += ocp_nlp_out_calculate_size(config, dims);''','''        for (int i = 0; i < opts->max_iter; i++)
        {
            size += ocp_nlp_out_calculate_size(config, dims);''')]
lib=True
files={'d.c':r'''#include "ocp_demo.h"
#include <string.h>
#include "acados/ocp_nlp/ocp_nlp_sqp.h"
int main(void){ ocp_nlp_plan_t *p=demo_plan(SQP); demo_ocp a; demo_problem(&a,p);
 a.opts=ocp_nlp_solver_opts_create(a.config,a.dims); bool on=true; int it=4; ocp_nlp_solver_opts_set(a.config,a.opts,"max_iter",&it); ocp_nlp_solver_opts_set(a.config,a.opts,"store_iterates",&on);
 void **so=(void**)a.opts; ocp_nlp_opts *no=((ocp_nlp_sqp_opts*)a.opts)->nlp_opts; (void)so;
 a.config->opts_update(a.config,a.dims,a.opts);
 size_t n=ocp_nlp_memory_calculate_size(a.config,a.dims,no,a.in); size_t cap=n+200000; unsigned char *raw=malloc(cap); memset(raw,0x5a,cap);
 ocp_nlp_memory_assign(a.config,a.dims,no,a.in,raw); size_t last=0; for(size_t i=0;i<cap;i++) if(raw[i]!=0x5a) last=i; printf("size %zu last written %zu\n",n,last); return last>=n; }
'''}
demo='''. "$(dirname "$0")/cdemo.sh"
build_lib && build_prog "$HERE/d.c" || exit 9
"$W/prog"
'''
