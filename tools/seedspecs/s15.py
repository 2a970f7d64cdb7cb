id='wrapper-status-unset'; prop='T33'
needs='a parametric external function whose only input is the parameter vector (for instance an output that depends on parameters alone)'
breaks='the wrapper checks a status that has not been computed yet when the first input is the parameter, so it may abort the process depending on stack contents'
edits=[('acados/utils/external_function_generic.c','''    external_function_param_casadi *fun = self;
    int ii;
    int status = 0;
    // in as args
    for (ii = 0; ii < fun->in_num; ii++)
    {
        // skip parameter argument
        if (ii != fun->idx_in_p)
''','''    external_function_param_casadi *fun = self;
    int ii;
    int status;
    // in as args
    for (ii = 0; ii < fun->in_num; ii++)
    {
        // skip parameter argument
        if (ii != fun->idx_in_p)
''')]
lib=True
files={'d.c':r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "acados_c/external_function_interface.h"
static const int sp[]={2,1,1};
static int f(const double **a,double **r,int *iw,double *w,void *m){ r[0][0]=2*a[0][0]; r[0][1]=a[0][1]; return 0; }
static int work(int *a,int *b,int *c,int *d){ *a=1;*b=1;*c=0;*d=0; return 0; }
static const int *si(int i){ return sp; }
static const int *so(int i){ return sp; }
static int one(void){ return 1; }
int main(void){ external_function_param_casadi g; memset(&g,0,sizeof g); external_function_opts o; external_function_opts_set_to_default(&o);
 g.casadi_fun=f; g.casadi_work=work; g.casadi_sparsity_in=si; g.casadi_sparsity_out=so; g.casadi_n_in=one; g.casadi_n_out=one;
 external_function_param_casadi_create(&g,2,&o); double p[2]={3,4}; g.set_param(&g,p); double y[2]={0,0};
 ext_fun_arg_t ti[1]={COLMAJ}, to[1]={COLMAJ}; void *in[1]={p}, *out[1]={y}; g.evaluate(&g,ti,in,to,out); printf("%g %g\n",y[0],y[1]); return !(y[0]==6&&y[1]==4); }
'''}
demo='''DEMO_CFLAGS="-O0 -ftrivial-auto-var-init=pattern"
. "$(dirname "$0")/cdemo.sh"
build_lib && build_prog "$HERE/d.c" || exit 9
"$W/prog"
'''
