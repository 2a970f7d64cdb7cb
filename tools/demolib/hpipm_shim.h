#include "hpipm/include/hpipm_d_ocp_qp_red.h"
#include "hpipm/include/hpipm_d_part_cond.h"
#include "hpipm_d_ocp_qp_seed.h"
#include "hpipm_d_dense_qp_seed.h"
#define d_part_cond_qp_expand_sol(q, o, s, a, w) d_part_cond_qp_expand_sol(q, mem->pcond_qp_in, o, s, a, w)
#define d_ocp_qp_reduce_eq_dof_arg_set_alias_unchanged(v, a) d_ocp_qp_reduce_eq_dof_arg_set_alias_unchanged(a, *(v))
#define d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_eq(v, a) d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_eq(a, *(int *)(v))
#define d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_ineq(v, a) d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_ineq(a, *(int *)(v))
