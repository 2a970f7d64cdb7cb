id='sqp-static-timer'; prop='C10'
needs='a solve that starts while another solver instance is inside its own solve (nested in a model callback, or on another thread)'
breaks='the SQP solve keeps its start time in storage shared by all solver instances, so one instance changes the timing another reports'
edits=[('acados/ocp_nlp/ocp_nlp_sqp.c','    acados_timer timer0, timer1;','    static acados_timer timer0;\n    acados_timer timer1;')]
lib=True
files={'d.c':r'''#include "ocp_demo.h"
#include <time.h>
static demo_ocp a,b; static int depth;
static void nested(void){ if(depth++==0){ struct timespec t={0,300000000}; nanosleep(&t,0); ocp_nlp_solve(b.s,b.in,b.out);} }
int main(void){ demo_problem(&a,demo_plan(SQP)); demo_create(&a); demo_problem(&b,demo_plan(SQP)); demo_create(&b);
 demo_hook=nested; int st=ocp_nlp_solve(a.s,a.in,a.out); double t; ocp_nlp_get(a.s,"time_tot",&t);
 printf("status %d time_tot of the outer instance %f\n",st,t); return !(st==0 && t>0.25); }
'''}
demo='''. "$(dirname "$0")/cdemo.sh"
export OMP_NUM_THREADS=1
build_lib && build_prog "$HERE/d.c" || exit 9
"$W/prog"
'''
