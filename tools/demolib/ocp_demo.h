#include <stdio.h>
#include <stdlib.h>
#include "acados_c/ocp_nlp_interface.h"
#include "acados_c/external_function_interface.h"
// linear system x+ = A x + B u as explicit-ODE-free discrete model
static void (*demo_hook)(void);
static double demo_scale = 1.0;
static void disc_fun_jac(void *self, ext_fun_arg_t *ti, void **in, ext_fun_arg_t *to, void **out)
{
    if (demo_hook) demo_hook();
    struct blasfeo_dvec_args *x = in[0], *u = in[1];
    struct blasfeo_dvec_args *fun = out[0];
    struct blasfeo_dmat_args *jac = out[1];
    double A[4]={demo_scale,0,0.1,demo_scale}, B[2]={0.005,0.1};
    double xx[2]={BLASFEO_DVECEL(x->x,x->xi),BLASFEO_DVECEL(x->x,x->xi+1)}, uu=BLASFEO_DVECEL(u->x,u->xi);
    for(int i=0;i<2;i++) BLASFEO_DVECEL(fun->x,fun->xi+i)=A[i]*xx[0]+A[2+i]*xx[1]+B[i]*uu;
    if (jac) { for(int i=0;i<2;i++){ BLASFEO_DMATEL(jac->A,jac->ai,jac->aj+i)=B[i]; for(int j=0;j<2;j++) BLASFEO_DMATEL(jac->A,jac->ai+1+j,jac->aj+i)=A[2*j+i]; } }
}
static size_t wsz(void*s,int*d){return 64;}
static void setw(void*s,void*w){}
static void cfg(void*s,void*w){}
typedef struct { ocp_nlp_plan_t *plan; ocp_nlp_config *config; ocp_nlp_dims *dims; ocp_nlp_in *in; ocp_nlp_out *out; void *opts; ocp_nlp_solver *s; int N; } demo_ocp;
// double integrator with a bounded input, horizon 5: solver = ocp_nlp_solver_t, ddp: no input bound
static ocp_nlp_plan_t *demo_plan(int solver)
{
    ocp_nlp_plan_t *plan=ocp_nlp_plan_create(5); int N=5;
    plan->nlp_solver=solver;
    plan->ocp_qp_solver_plan.qp_solver=PARTIAL_CONDENSING_HPIPM;
    plan->regularization=NO_REGULARIZE;
    plan->globalization=FIXED_STEP;
    for(int i=0;i<=N;i++) plan->nlp_cost[i]=LINEAR_LS, plan->nlp_constraints[i]=BGH;
    for(int i=0;i<N;i++) plan->nlp_dynamics[i]=DISCRETE_MODEL;
    return plan;
}
static void demo_problem(demo_ocp *o, ocp_nlp_plan_t *plan)
{
    int N=5, ddp=plan->nlp_solver==DDP; o->N=N; o->plan=plan;
    ocp_nlp_config *config=o->config=ocp_nlp_config_create(*plan);
    ocp_nlp_dims *dims=o->dims=ocp_nlp_dims_create(config);
    int a_nx[6]={2,2,2,2,2,2},a_nu[6]={1,1,1,1,1,0},z[6]={0};
    ocp_nlp_dims_set_opt_vars(config,dims,"nx",a_nx);
    ocp_nlp_dims_set_opt_vars(config,dims,"nu",a_nu);
    ocp_nlp_dims_set_opt_vars(config,dims,"nz",z);
    ocp_nlp_dims_set_opt_vars(config,dims,"ns",z);
    for(int i=0;i<=N;i++){ int ny=i<N?3:2; ocp_nlp_dims_set_cost(config,dims,i,"ny",&ny); int nbx=i==0?2:0, nbu=(i<N&&!ddp)?1:0; ocp_nlp_dims_set_constraints(config,dims,i,"nbx",&nbx); ocp_nlp_dims_set_constraints(config,dims,i,"nbu",&nbu); if(i==0){int e=2;ocp_nlp_dims_set_constraints(config,dims,i,"nbxe",&e);} }
    ocp_nlp_in *in=o->in=ocp_nlp_in_create(config,dims);
    ocp_nlp_out *out=o->out=ocp_nlp_out_create(config,dims);
    static external_function_generic f; f.evaluate=disc_fun_jac; f.get_external_workspace_requirement=(void*)wsz; f.set_external_workspace=(void*)setw;
    for(int i=0;i<N;i++){ double ts=0.1; ocp_nlp_in_set(config,dims,in,i,"Ts",&ts); ocp_nlp_dynamics_model_set(config,dims,in,i,"disc_dyn_fun",&f); ocp_nlp_dynamics_model_set(config,dims,in,i,"disc_dyn_fun_jac",&f);}
    double Vx[6]={1,0,0,0,1,0},Vu[3]={0,0,1},W[9]={1,0,0,0,1,0,0,0,0.1},y[3]={0},WN[4]={1,0,0,1},VxN[4]={1,0,0,1};
    for(int i=0;i<N;i++){ ocp_nlp_cost_model_set(config,dims,in,i,"Vx",Vx);ocp_nlp_cost_model_set(config,dims,in,i,"Vu",Vu);ocp_nlp_cost_model_set(config,dims,in,i,"W",W);ocp_nlp_cost_model_set(config,dims,in,i,"yref",y);
      if(!ddp){int id=0; double lb=-1,ub=1; ocp_nlp_constraints_model_set(config,dims,in,out,i,"idxbu",&id);ocp_nlp_constraints_model_set(config,dims,in,out,i,"lbu",&lb);ocp_nlp_constraints_model_set(config,dims,in,out,i,"ubu",&ub);}}
    ocp_nlp_cost_model_set(config,dims,in,N,"Vx",VxN);ocp_nlp_cost_model_set(config,dims,in,N,"W",WN);ocp_nlp_cost_model_set(config,dims,in,N,"yref",y);
    int idx[2]={0,1}; double x0[2]={1,0}; ocp_nlp_constraints_model_set(config,dims,in,out,0,"idxbx",idx);ocp_nlp_constraints_model_set(config,dims,in,out,0,"lbx",x0);ocp_nlp_constraints_model_set(config,dims,in,out,0,"ubx",x0);ocp_nlp_constraints_model_set(config,dims,in,out,0,"idxbxe",idx);
    o->opts=ocp_nlp_solver_opts_create(config,dims);
}
static void demo_create(demo_ocp *o)
{
    o->s=ocp_nlp_solver_create(o->config,o->dims,o->opts,o->in);
    ocp_nlp_precompute(o->s,o->in,o->out);
}
