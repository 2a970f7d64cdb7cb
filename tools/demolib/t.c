#include "ocp_demo.h"
int main(int c,char**v){ demo_ocp o; demo_problem(&o,demo_plan(c>1?atoi(v[1]):SQP)); demo_create(&o); int st=ocp_nlp_solve(o.s,o.in,o.out); double u; ocp_nlp_out_get(o.config,o.dims,o.out,0,"u",&u); printf("status %d u0 %f\n",st,u); return 0; }
