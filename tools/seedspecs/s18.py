id='sqp-globfail-time'; prop='C16'
needs='an SQP solve that ends with a failed globalization step'
breaks='time_tot read after the failed solve is the one of an earlier solve'
edits=[('acados/ocp_nlp/ocp_nlp_sqp.c','''            nlp_mem->status = globalization_status;
            nlp_timings->time_tot = acados_toc(&timer0);
''','''            nlp_mem->status = globalization_status;
            if (globalization_status != ACADOS_MINSTEP)
            {
                nlp_timings->time_tot = acados_toc(&timer0);
            }
''')]
lib=True
files={'d.c':r'''#include "ocp_demo.h"
#include <time.h>
static int bad(void*a,void*b,void*c,void*d,void*e,void*f,void*g,void*h,double*s){ return ACADOS_MINSTEP; }
static void nested(void){ struct timespec t={0,60000000}; nanosleep(&t,0); }
int main(void){ demo_ocp a; demo_problem(&a,demo_plan(SQP)); demo_create(&a);
 int st=ocp_nlp_solve(a.s,a.in,a.out); printf("status %d\n",st); if(st) return 9;
 double x0[2]={2,0}; ocp_nlp_constraints_model_set(a.config,a.dims,a.in,a.out,0,"lbx",x0);ocp_nlp_constraints_model_set(a.config,a.dims,a.in,a.out,0,"ubx",x0);
 a.config->globalization->find_acceptable_iterate=(void*)bad; demo_hook=nested;
 st=ocp_nlp_solve(a.s,a.in,a.out); double t; ocp_nlp_get(a.s,"time_tot",&t); printf("status %d time_tot %f\n",st,t);
 return !(st==ACADOS_MINSTEP && t>=0.05); }
'''}
demo='''. "$(dirname "$0")/cdemo.sh"
export OMP_NUM_THREADS=1
build_lib && build_prog "$HERE/d.c" || exit 9
"$W/prog"
'''
