/* user-provided header of a custom update function, as documented */
#ifndef CUSTOM_UPDATE_FUNCTION_STUB
#define CUSTOM_UPDATE_FUNCTION_STUB
#include "acados_solver_ocp_x.h"
int custom_update_init_function(ocp_x_solver_capsule* capsule);
int custom_update_function(ocp_x_solver_capsule* capsule, double* data, int data_len);
int custom_update_terminate_function(ocp_x_solver_capsule* capsule);
#endif
