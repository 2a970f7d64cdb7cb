#ifndef HPIPM_D_OCP_QP_SEED_H_
#define HPIPM_D_OCP_QP_SEED_H_
#include <blasfeo_target.h>
#include <blasfeo_common.h>
#include <hpipm_d_ocp_qp_dim.h>
struct d_ocp_qp_seed { struct d_ocp_qp_dim *dim; struct blasfeo_dvec *seed_g, *seed_b, *seed_d, *seed_m; hpipm_size_t memsize; };
hpipm_size_t d_ocp_qp_seed_memsize(struct d_ocp_qp_dim *dim);
void d_ocp_qp_seed_create(struct d_ocp_qp_dim *dim, struct d_ocp_qp_seed *s, void *mem);
void d_ocp_qp_seed_set_zero(struct d_ocp_qp_seed *s);
#endif
