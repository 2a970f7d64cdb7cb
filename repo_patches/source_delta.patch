From 4a4d0942d2092d74302513883362352395db2e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:56 +0000
Subject: [PATCH 01/46] fix: keep qpOASES options on the stack so solver
 instances do not share them

---
 acados/dense_qp/dense_qp_qpoases.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acados/dense_qp/dense_qp_qpoases.c b/acados/dense_qp/dense_qp_qpoases.c
index 2446633..48c03fe 100644
--- a/acados/dense_qp/dense_qp_qpoases.c
+++ b/acados/dense_qp/dense_qp_qpoases.c
@@ -551,7 +551,7 @@ int dense_qp_qpoases(void *config_, dense_qp_in *qp_in, dense_qp_out *qp_out, vo
                 // QProblem_setPrintLevel(QP, PL_DEBUG_ITER);
                 if (opts->set_acado_opts)
                 {
-                    static Options options;
+                    Options options;
                     Options_setToMPC(&options);
                     options.terminationTolerance = opts->tolerance;
                     QProblem_setOptions(QP, options);
@@ -584,7 +584,7 @@ int dense_qp_qpoases(void *config_, dense_qp_in *qp_in, dense_qp_out *qp_out, vo
                 // QProblemB_setPrintLevel(QPB, PL_DEBUG_ITER);
                 if (opts->set_acado_opts)
                 {
-                    static Options options;
+                    Options options;
                     Options_setToMPC(&options);
                     options.terminationTolerance = opts->tolerance;
                     QProblem_setOptions(QP, options);
@@ -636,7 +636,7 @@ int dense_qp_qpoases(void *config_, dense_qp_in *qp_in, dense_qp_out *qp_out, vo
             {
                 if (opts->set_acado_opts)
                 {
-                    static Options options;
+                    Options options;
                     Options_setToMPC(&options);
                     options.terminationTolerance = opts->tolerance;
                     QProblem_setOptions(QP, options);
@@ -682,7 +682,7 @@ int dense_qp_qpoases(void *config_, dense_qp_in *qp_in, dense_qp_out *qp_out, vo
             {
                 if (opts->set_acado_opts)
                 {
-                    static Options options;
+                    Options options;
                     Options_setToMPC(&options);
                     options.terminationTolerance = opts->tolerance;
                     QProblemB_setOptions(QPB, options);
-- 
2.43.0


From f7806f0c3c6b0138f7a9d4c8c4fba12c39475b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:57 +0000
Subject: [PATCH 02/46] fix: terminate on an unknown field in
 ocp_qp_hpipm_solver_get

---
 acados/ocp_qp/ocp_qp_hpipm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acados/ocp_qp/ocp_qp_hpipm.c b/acados/ocp_qp/ocp_qp_hpipm.c
index 1a570e7..01b32e0 100644
--- a/acados/ocp_qp/ocp_qp_hpipm.c
+++ b/acados/ocp_qp/ocp_qp_hpipm.c
@@ -472,7 +472,8 @@ void ocp_qp_hpipm_solver_get(void *config_, void *qp_in_, void *qp_out_, void *o
     }
     else
     {
-        printf("\nocp_qp_hpipm_solver_get: field %s not supported", field);
+        printf("\nerror: ocp_qp_hpipm_solver_get: field %s not supported\n", field);
+        exit(1);
     }
     return;
 }
-- 
2.43.0


From 9859ee5d49fd5b3e370834d32c993281b2d1920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:19 +0000
Subject: [PATCH 03/46] fix: give the remembered QP iteration limit its default
 value

---
 acados/ocp_nlp/ocp_nlp_common.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acados/ocp_nlp/ocp_nlp_common.c b/acados/ocp_nlp/ocp_nlp_common.c
index d708b51..13eb399 100644
--- a/acados/ocp_nlp/ocp_nlp_common.c
+++ b/acados/ocp_nlp/ocp_nlp_common.c
@@ -1213,6 +1213,7 @@ void ocp_nlp_opts_initialize_default(void *config_, void *dims_, void *opts_)
     opts->log_primal_step_norm = 0;
     opts->log_dual_step_norm = 0;
     opts->max_iter = 1;
+    opts->qp_iter_max = 50;  // same as default iter_max of HPIPM, restored after factorization
     opts->nlp_qp_tol_strategy = FIXED_QP_TOL;
     opts->nlp_qp_tol_reduction_factor = 1e-1;
     opts->nlp_qp_tol_safety_factor = 0.1;
-- 
2.43.0


From e9ecb898fec8b4ad83d00132aa1dedb2944c3d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:24 +0000
Subject: [PATCH 04/46] fix: place the integer array of the DAQP memory after
 the doubles so that they stay 8-byte aligned

---
 acados/dense_qp/dense_qp_daqp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acados/dense_qp/dense_qp_daqp.c b/acados/dense_qp/dense_qp_daqp.c
index a9d49eb..706a748 100644
--- a/acados/dense_qp/dense_qp_daqp.c
+++ b/acados/dense_qp/dense_qp_daqp.c
@@ -386,9 +386,6 @@ void *dense_qp_daqp_memory_assign(void *config_, dense_qp_dims *dims, void *opts
     mem->bupper = (c_float *) c_ptr;
     c_ptr += m * sizeof(c_float);
 
-    mem->idxs= (int *) c_ptr;
-    c_ptr += ns * 1 * sizeof(int);
-
     mem->Zl = (c_float *) c_ptr;
     c_ptr += ns * 1 * sizeof(c_float);
 
@@ -407,6 +404,9 @@ void *dense_qp_daqp_memory_assign(void *config_, dense_qp_dims *dims, void *opts
     mem->d_us = (c_float *) c_ptr;
     c_ptr += ns * 1 * sizeof(c_float);
 
+    mem->idxs= (int *) c_ptr;
+    c_ptr += ns * 1 * sizeof(int);
+
     align_char_to(DAQP_BLASFEO_MEM_ALIGNMENT, &c_ptr);
     blasfeo_create_dmat(n, n, mem->H_factor, c_ptr);
     c_ptr += blasfeo_memsize_dmat(n, n);
-- 
2.43.0


From a0a406322bdd2b4fbfa26993cc933fd185931f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:46 +0000
Subject: [PATCH 05/46] fix: read search_direction_mode as the int that is
 passed

---
 acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
index 297afc8..2b2a6cc 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
@@ -193,7 +193,7 @@ void ocp_nlp_sqp_wfqp_opts_set(void *config_, void *opts_, const char *field, vo
         }
         else if (!strcmp(field, "search_direction_mode"))
         {
-            bool* search_direction_mode = (bool *) value;
+            int* search_direction_mode = (int *) value;
             opts->search_direction_mode = *search_direction_mode;
         }
         else if (!strcmp(field, "allow_direction_mode_switch_to_nominal"))
-- 
2.43.0


From a10658be352cbcc46f44bdaefb08f0eb122fdc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:46 +0000
Subject: [PATCH 06/46] fix: read integrator_cost as the bool that generated
 solvers pass

---
 acados/ocp_nlp/ocp_nlp_cost_conl.c | 2 +-
 acados/ocp_nlp/ocp_nlp_cost_nls.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_cost_conl.c b/acados/ocp_nlp/ocp_nlp_cost_conl.c
index b805f3d..990c7fb 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_conl.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_conl.c
@@ -390,7 +390,7 @@ void ocp_nlp_cost_conl_opts_set(void *config_, void *opts_, const char *field, v
     }
     else if(!strcmp(field, "integrator_cost"))
     {
-        int *opt_val = (int *) value;
+        bool *opt_val = (bool *) value;
         opts->integrator_cost = *opt_val;
     }
     else if (!strcmp(field, "add_hess_contribution"))
diff --git a/acados/ocp_nlp/ocp_nlp_cost_nls.c b/acados/ocp_nlp/ocp_nlp_cost_nls.c
index 200d0bd..21e1ef6 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_nls.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_nls.c
@@ -477,7 +477,7 @@ void ocp_nlp_cost_nls_opts_set(void *config_, void *opts_, const char *field, vo
     }
     else if(!strcmp(field, "integrator_cost"))
     {
-        int *opt_val = (int *) value;
+        bool *opt_val = (bool *) value;
         opts->integrator_cost = *opt_val;
     }
     else if(!strcmp(field, "with_solution_sens_wrt_params_forw"))
-- 
2.43.0


From 76cef1ceaff7e2e57dc4c540e65251b2d606e1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:46 +0000
Subject: [PATCH 07/46] fix: agree on the types of the warm_start_first_qp
 options

---
 acados/ocp_nlp/ocp_nlp_common.c                                 | 2 +-
 .../acados_template/c_templates_tera/acados_solver.in.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_common.c b/acados/ocp_nlp/ocp_nlp_common.c
index 13eb399..a65e79a 100644
--- a/acados/ocp_nlp/ocp_nlp_common.c
+++ b/acados/ocp_nlp/ocp_nlp_common.c
@@ -1662,7 +1662,7 @@ void ocp_nlp_opts_set(void *config_, void *opts_, const char *field, void* value
         }
         else if (!strcmp(field, "warm_start_first_qp"))
         {
-            bool* warm_start_first_qp = (bool *) value;
+            int* warm_start_first_qp = (int *) value;
             opts->warm_start_first_qp = *warm_start_first_qp;
         }
         else if (!strcmp(field, "warm_start_first_qp_from_nlp"))
diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index bcc0b35..54acd08 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -2695,7 +2695,7 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
     {%- endif %}
 
     {%- if solver_options.nlp_solver_warm_start_first_qp_from_nlp %}
-    int nlp_solver_warm_start_first_qp_from_nlp = {{ solver_options.nlp_solver_warm_start_first_qp_from_nlp }};
+    bool nlp_solver_warm_start_first_qp_from_nlp = {{ solver_options.nlp_solver_warm_start_first_qp_from_nlp }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "warm_start_first_qp_from_nlp", &nlp_solver_warm_start_first_qp_from_nlp);
     {%- endif %}
 
-- 
2.43.0


From 9241d0fa36feef081f66266396ab01fca8a1269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:46 +0000
Subject: [PATCH 08/46] fix: read initialize_next_xcond_qp_from_qp_out as the
 int that is passed

---
 acados/ocp_qp/ocp_qp_xcond_solver.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acados/ocp_qp/ocp_qp_xcond_solver.c b/acados/ocp_qp/ocp_qp_xcond_solver.c
index c9c342d..b4c3030 100644
--- a/acados/ocp_qp/ocp_qp_xcond_solver.c
+++ b/acados/ocp_qp/ocp_qp_xcond_solver.c
@@ -297,7 +297,7 @@ void ocp_qp_xcond_solver_opts_set_(void *config_, void *opts_, const char *field
     }
     else if (!strcmp(field, "initialize_next_xcond_qp_from_qp_out"))
     {
-        bool* initialize_next_xcond_qp_from_qp_out = (bool *) value;
+        int* initialize_next_xcond_qp_from_qp_out = (int *) value;
         opts->initialize_next_xcond_qp_from_qp_out = *initialize_next_xcond_qp_from_qp_out;
     }
     else // pass options to QP module
-- 
2.43.0


From b2e7272baef5d707cbdc35aa8e66685cb761c014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:23 +0000
Subject: [PATCH 09/46] fix: set the numerical Hessian option of the initial
 stage according to its own cost type

---
 .../c_templates_tera/acados_multi_solver.in.c             | 8 +++++---
 .../acados_template/c_templates_tera/acados_solver.in.c   | 5 ++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index 39e9d60..7ddcfa4 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -2716,7 +2716,7 @@ ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "allow_direction_mode_switch_to_no
 
 
     /* Stage varying options */
-    int ext_cost_num_hess;
+    int ext_cost_num_hess = {{ solver_options.ext_cost_num_hess }};
     bool output_z_val = true;
     bool sens_algebraic_val = true;
     sim_collocation_type collocation_type;
@@ -2789,14 +2789,16 @@ ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "allow_direction_mode_switch_to_no
 {%- endif %}{# mocp_opts.integrator_type[jj] != "DISCRETE" #}
 
 {%- if cost[jj].cost_type == "EXTERNAL" %}
-    ext_cost_num_hess = {{ solver_options.ext_cost_num_hess }};
-    for (int i = {{ start_idx[jj] }}; i < {{ end_idx[jj] }}; i++)
+    for (int i = {{ cost_start_idx[jj] }}; i < {{ end_idx[jj] }}; i++)
     {
         ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, i, "cost_numerical_hessian", &ext_cost_num_hess);
     }
 {%- endif %}
     {%- endfor %}{# for jj in range(end=n_phases) #}
 
+{%- if cost[0].cost_type_0 == "EXTERNAL" %}
+    ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, 0, "cost_numerical_hessian", &ext_cost_num_hess);
+{%- endif %}
 {%- if cost_e.cost_type_e == "EXTERNAL" %}
     ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, N, "cost_numerical_hessian", &ext_cost_num_hess);
 {%- endif %}
diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index 54acd08..12fe3a7 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -2932,8 +2932,11 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
 {% endif %}
 
     int ext_cost_num_hess = {{ solver_options.ext_cost_num_hess }};
+{%- if cost.cost_type_0 == "EXTERNAL" and solver_options.N_horizon > 0 %}
+    ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, 0, "cost_numerical_hessian", &ext_cost_num_hess);
+{%- endif %}
 {%- if cost.cost_type == "EXTERNAL" and solver_options.N_horizon > 0 %}
-    for (int i = 0; i < N; i++)
+    for (int i = 1; i < N; i++)
     {
         ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, i, "cost_numerical_hessian", &ext_cost_num_hess);
     }
-- 
2.43.0


From 4c126f04d8f58953ce4f07c9402e20e7f40acfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:45 +0000
Subject: [PATCH 10/46] fix: reject cost_discretization INTEGRATOR for
 integrators that do not implement it

---
 interfaces/acados_template/acados_template/acados_ocp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 1402b8d..d83e19c 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -1176,6 +1176,8 @@ class AcadosOcp:
             if opts.cost_discretization == 'INTEGRATOR':
                 if any([not supports_cost_integration(cost) for cost in [cost.cost_type_0, cost.cost_type]]):
                     raise ValueError(f'cost_discretization == INTEGRATOR only works with cost in ["NONLINEAR_LS", "CONVEX_OVER_NONLINEAR"] costs, got cost_type_0 {cost.cost_type_0}, cost_type {cost.cost_type}.')
+                if opts.integrator_type != 'IRK':
+                    raise ValueError(f'cost_discretization == INTEGRATOR only works with integrator_type IRK, got {opts.integrator_type}.')
                 if opts.nlp_solver_type == "SQP_WITH_FEASIBLE_QP":
                     raise ValueError('cost_discretization == INTEGRATOR is not compatible with SQP_WITH_FEASIBLE_QP yet.')
 
-- 
2.43.0


From 2acaf96a3d638e4a86552011b5c6d561f9916610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:36 +0000
Subject: [PATCH 11/46] fix: reject nonlinear h constraints together with
 constraint type BGP

---
 interfaces/acados_template/acados_template/acados_ocp.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index d83e19c..72d678c 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -522,6 +522,9 @@ class AcadosOcp:
             else:
                 dims.nr_0 = casadi_length(model.con_r_expr_0)
 
+        if constraints.constr_type_0 == "BGP" and dims.nh_0 > 0:
+            raise ValueError('constr_type_0 BGP does not support nonlinear constraints of the form con_h_expr_0.')
+
 
     def _make_consistent_constraints_path(self):
         constraints = self.constraints
@@ -582,6 +585,9 @@ class AcadosOcp:
             else:
                 dims.nr = casadi_length(model.con_r_expr)
 
+        if constraints.constr_type == "BGP" and dims.nh > 0:
+            raise ValueError('constr_type BGP does not support nonlinear constraints of the form con_h_expr.')
+
 
     def _make_consistent_constraints_terminal(self):
         dims = self.dims
@@ -620,6 +626,9 @@ class AcadosOcp:
             else:
                 dims.nr_e = casadi_length(model.con_r_expr_e)
 
+        if constraints.constr_type_e == "BGP" and dims.nh_e > 0:
+            raise ValueError('constr_type_e BGP does not support nonlinear constraints of the form con_h_expr_e.')
+
 
     def _make_consistent_slacks_rev_initial(self):
         constraints = self.constraints
-- 
2.43.0


From 4b66483abd3595fcb6519aac7802e409296f041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:10 +0000
Subject: [PATCH 12/46] fix: ocp_nlp_dynamics_disc_dims_get: write the
 dimension nz instead of inspecting the caller's uninitialized output

---
 acados/ocp_nlp/ocp_nlp_dynamics_disc.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_dynamics_disc.c b/acados/ocp_nlp/ocp_nlp_dynamics_disc.c
index 0e4750a..34e474e 100644
--- a/acados/ocp_nlp/ocp_nlp_dynamics_disc.c
+++ b/acados/ocp_nlp/ocp_nlp_dynamics_disc.c
@@ -132,11 +132,8 @@ void ocp_nlp_dynamics_disc_dims_get(void *config_, void *dims_, const char *dim,
     }
     else if (!strcmp(dim, "nz"))
     {
-        if ( *value > 0)
-        {
-            printf("\nerror: ocp_nlp_dynamics_disc does not support nz > 0\n");
-            exit(1);
-        }
+        // discrete dynamics do not support algebraic variables
+        *value = 0;
     }
     else if (!strcmp(dim, "nu"))
     {
-- 
2.43.0


From f7f53a23074d529e65de50602f35b2d4e1038ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:36 +0000
Subject: [PATCH 13/46] fix: restore the caller's OpenMP thread setting on
 every exit of the NLP solvers

omp_get_num_threads() outside a parallel region is the size of the current team (1),
not the thread setting, so every solve left the process at one thread; some failure
exits of DDP and AS-RTI did not restore it at all.
---
 acados/ocp_nlp/ocp_nlp_ddp.c                  | 10 +++++-
 acados/ocp_nlp/ocp_nlp_sqp.c                  |  2 +-
 acados/ocp_nlp/ocp_nlp_sqp_rti.c              | 32 +++++++++++++++++--
 acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c |  2 +-
 4 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_ddp.c b/acados/ocp_nlp/ocp_nlp_ddp.c
index e9349b8..44a45c8 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.c
+++ b/acados/ocp_nlp/ocp_nlp_ddp.c
@@ -588,7 +588,7 @@ int ocp_nlp_ddp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
 
 #if defined(ACADOS_WITH_OPENMP)
     // backup number of threads
-    int num_threads_bkp = omp_get_num_threads();
+    int num_threads_bkp = omp_get_max_threads();
     // set number of threads
     // approximate_qp_matrices is parallelized
     omp_set_num_threads(opts->nlp_opts->num_threads);
@@ -806,6 +806,10 @@ int ocp_nlp_ddp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
                 {
                     printf("\nFailure in globalization, got status %d (%s)!\n", globalization_status, status_to_string(globalization_status));
                 }
+#if defined(ACADOS_WITH_OPENMP)
+                // restore number of threads
+                omp_set_num_threads(num_threads_bkp);
+#endif
                 mem->nlp_mem->status = ACADOS_QP_FAILURE;
                 nlp_mem->iter = ddp_iter;
                 nlp_timings->time_tot = acados_toc(&timer0);
@@ -818,6 +822,10 @@ int ocp_nlp_ddp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
     {
         printf("Warning: The solver should never reach this part of the function!\n");
     }
+#if defined(ACADOS_WITH_OPENMP)
+    // restore number of threads
+    omp_set_num_threads(num_threads_bkp);
+#endif
     return mem->nlp_mem->status;
 }
 
diff --git a/acados/ocp_nlp/ocp_nlp_sqp.c b/acados/ocp_nlp/ocp_nlp_sqp.c
index c9bf0fc..f0588b2 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp.c
@@ -521,7 +521,7 @@ int ocp_nlp_sqp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
 
 #if defined(ACADOS_WITH_OPENMP)
     // backup number of threads
-    int num_threads_bkp = omp_get_num_threads();
+    int num_threads_bkp = omp_get_max_threads();
     // set number of threads
     omp_set_num_threads(opts->nlp_opts->num_threads);
 #endif
diff --git a/acados/ocp_nlp/ocp_nlp_sqp_rti.c b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
index d1169d4..2fe7e66 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_rti.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
@@ -481,7 +481,7 @@ static void ocp_nlp_sqp_rti_preparation_step(ocp_nlp_config *config, ocp_nlp_dim
 
 #if defined(ACADOS_WITH_OPENMP)
     // backup number of threads
-    int num_threads_bkp = omp_get_num_threads();
+    int num_threads_bkp = omp_get_max_threads();
     // set number of threads
     omp_set_num_threads(opts->nlp_opts->num_threads);
 #endif
@@ -818,7 +818,7 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
 
 #if defined(ACADOS_WITH_OPENMP)
     // backup number of threads
-    int num_threads_bkp = omp_get_num_threads();
+    int num_threads_bkp = omp_get_max_threads();
     // set number of threads
     omp_set_num_threads(opts->nlp_opts->num_threads);
 #endif
@@ -895,6 +895,10 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
             {
                 printf("\n Failure in globalization, got status %d (%s)!\n", globalization_status, status_to_string(globalization_status));
             }
+#if defined(ACADOS_WITH_OPENMP)
+            // restore number of threads
+            omp_set_num_threads(num_threads_bkp);
+#endif
             return;
         }
     }
@@ -944,6 +948,10 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
                     qp_status, status_to_string(qp_status), qp_iter);
 #endif
                 nlp_mem->status = ACADOS_QP_FAILURE;
+#if defined(ACADOS_WITH_OPENMP)
+                // restore number of threads
+                omp_set_num_threads(num_threads_bkp);
+#endif
                 return;
             }
 
@@ -963,6 +971,10 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
                 {
                     printf("\nFailure in globalization, got status %d (%s)!\n", globalization_status, status_to_string(globalization_status));
                 }
+#if defined(ACADOS_WITH_OPENMP)
+                // restore number of threads
+                omp_set_num_threads(num_threads_bkp);
+#endif
                 return;
             }
         }
@@ -1008,6 +1020,10 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
                     qp_status, status_to_string(qp_status), qp_iter);
 #endif
                 nlp_mem->status = ACADOS_QP_FAILURE;
+#if defined(ACADOS_WITH_OPENMP)
+                // restore number of threads
+                omp_set_num_threads(num_threads_bkp);
+#endif
                 return;
             }
 
@@ -1027,6 +1043,10 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
                 {
                     printf("\nFailure in globalization, got status %d (%s)!\n", globalization_status, status_to_string(globalization_status));
                 }
+#if defined(ACADOS_WITH_OPENMP)
+                // restore number of threads
+                omp_set_num_threads(num_threads_bkp);
+#endif
                 return;
             }
             // norm = 0.0;
@@ -1081,6 +1101,10 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
                     qp_status, status_to_string(qp_status), qp_iter);
 #endif
                 mem->nlp_mem->status = ACADOS_QP_FAILURE;
+#if defined(ACADOS_WITH_OPENMP)
+                // restore number of threads
+                omp_set_num_threads(num_threads_bkp);
+#endif
                 return;
             }
 
@@ -1093,6 +1117,10 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
                 {
                     printf("\nFailure in globalization, got status %d (%s)!\n", globalization_status, status_to_string(globalization_status));
                 }
+#if defined(ACADOS_WITH_OPENMP)
+                // restore number of threads
+                omp_set_num_threads(num_threads_bkp);
+#endif
                 return;
             }
         }
diff --git a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
index 2b2a6cc..c6ff89a 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
@@ -1594,7 +1594,7 @@ int ocp_nlp_sqp_wfqp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
 
 #if defined(ACADOS_WITH_OPENMP)
     // backup number of threads
-    int num_threads_bkp = omp_get_num_threads();
+    int num_threads_bkp = omp_get_max_threads();
     // set number of threads
     omp_set_num_threads(opts->nlp_opts->num_threads);
 #endif
-- 
2.43.0


From d671716271d13068c1e4184686cc28f5310f2981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:36 +0000
Subject: [PATCH 14/46] fix: generated batch functions restore the caller's
 OpenMP thread setting

omp_get_num_threads() outside a parallel region returns 1, so after a batch call
the process stayed at one thread.
---
 .../c_templates_tera/acados_sim_solver.in.c   |  2 +-
 .../c_templates_tera/acados_solver.in.c       | 22 +++++++++----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c
index 3614489..ce1e02e 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c
@@ -493,7 +493,7 @@ void {{ name }}_acados_sim_batch_solve({{ name }}_sim_solver_capsule ** capsules
 {
     int num_threads_bkp;
     if (num_threads_in_batch_solve > 1){
-        num_threads_bkp = omp_get_num_threads();
+        num_threads_bkp = omp_get_max_threads();
         omp_set_num_threads(num_threads_in_batch_solve);
     }
 
diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index 12fe3a7..0de8b93 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -3228,7 +3228,7 @@ void {{ name }}_acados_batch_solve({{ name }}_solver_capsule ** capsules, int *
     int num_threads_bkp;
     if (num_threads_in_batch_solve > 1)
     {
-        num_threads_bkp = omp_get_num_threads();
+        num_threads_bkp = omp_get_max_threads();
         omp_set_num_threads(num_threads_in_batch_solve);
     }
 
@@ -3251,7 +3251,7 @@ void {{ name }}_acados_batch_setup_qp_matrices_and_factorize({{ name }}_solver_c
     int num_threads_bkp;
     if (num_threads_in_batch_solve > 1)
     {
-        num_threads_bkp = omp_get_num_threads();
+        num_threads_bkp = omp_get_max_threads();
         omp_set_num_threads(num_threads_in_batch_solve);
     }
 
@@ -3274,7 +3274,7 @@ void {{ name }}_acados_batch_eval_params_jac({{ name }}_solver_capsule ** capsul
     int num_threads_bkp;
     if (num_threads_in_batch_solve > 1)
     {
-        num_threads_bkp = omp_get_num_threads();
+        num_threads_bkp = omp_get_max_threads();
         omp_set_num_threads(num_threads_in_batch_solve);
     }
 
@@ -3297,7 +3297,7 @@ void {{ name }}_acados_batch_eval_param_sens({{ name }}_solver_capsule ** capsul
     int num_threads_bkp;
     if (num_threads_in_batch_solve > 1)
     {
-        num_threads_bkp = omp_get_num_threads();
+        num_threads_bkp = omp_get_max_threads();
         omp_set_num_threads(num_threads_in_batch_solve);
     }
 
@@ -3321,7 +3321,7 @@ void {{ name }}_acados_batch_eval_solution_sens_adj_p({{ name }}_solver_capsule
     int num_threads_bkp;
     if (num_threads_in_batch_solve > 1)
     {
-        num_threads_bkp = omp_get_num_threads();
+        num_threads_bkp = omp_get_max_threads();
         omp_set_num_threads(num_threads_in_batch_solve);
     }
 
@@ -3352,7 +3352,7 @@ void {{ name }}_acados_batch_set_flat({{ name }}_solver_capsule ** capsules, con
     int num_threads_bkp;
     if (num_threads_in_batch_solve > 1)
     {
-        num_threads_bkp = omp_get_num_threads();
+        num_threads_bkp = omp_get_max_threads();
         omp_set_num_threads(num_threads_in_batch_solve);
     }
 
@@ -3383,7 +3383,7 @@ void {{ name }}_acados_batch_get_flat({{ name }}_solver_capsule ** capsules, con
     int num_threads_bkp;
     if (num_threads_in_batch_solve > 1)
     {
-        num_threads_bkp = omp_get_num_threads();
+        num_threads_bkp = omp_get_max_threads();
         omp_set_num_threads(num_threads_in_batch_solve);
     }
 
@@ -3406,7 +3406,7 @@ void {{ name }}_acados_batch_reset_sens_out({{ name }}_solver_capsule ** capsule
     int num_threads_bkp;
     if (num_threads_in_batch_solve > 1)
     {
-        num_threads_bkp = omp_get_num_threads();
+        num_threads_bkp = omp_get_max_threads();
         omp_set_num_threads(num_threads_in_batch_solve);
     }
 
@@ -3445,7 +3445,7 @@ void {{ name }}_acados_batch_set({{ name }}_solver_capsule ** capsules, const ch
     int num_threads_bkp;
     if (num_threads_in_batch_solve > 1)
     {
-        num_threads_bkp = omp_get_num_threads();
+        num_threads_bkp = omp_get_max_threads();
         omp_set_num_threads(num_threads_in_batch_solve);
     }
 
@@ -3563,7 +3563,7 @@ void {{ name }}_acados_batch_get({{ name }}_solver_capsule ** capsules, const ch
     int num_threads_bkp;
     if (num_threads_in_batch_solve > 1)
     {
-        num_threads_bkp = omp_get_num_threads();
+        num_threads_bkp = omp_get_max_threads();
         omp_set_num_threads(num_threads_in_batch_solve);
     }
 
@@ -3616,7 +3616,7 @@ void {{ name }}_acados_batch_constraints_set({{ name }}_solver_capsule ** capsul
     int num_threads_bkp;
     if (num_threads_in_batch_solve > 1)
     {
-        num_threads_bkp = omp_get_num_threads();
+        num_threads_bkp = omp_get_max_threads();
         omp_set_num_threads(num_threads_in_batch_solve);
     }
 
-- 
2.43.0


From 5615ae681f4025aed3b2aa8b06f95a718f49ac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:46 +0000
Subject: [PATCH 15/46] fix: terminal adjoint-parameter function of h_e has its
 own capsule member

With nonlinear constraints at the terminal node and with_solution_sens_wrt_params_adj
the generated solver did not compile: the member used everywhere was declared under
the name of the path function.
---
 .../acados_template/c_templates_tera/acados_solver.in.h         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.h b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.h
index fff2fbd..346e605 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.h
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.h
@@ -276,7 +276,7 @@ typedef struct {{ name }}_solver_capsule
     external_function_external_param_casadi nl_constr_h_e_jac_p_hess_xu_p;
 {%- endif %}
 {% if code_gen_options.with_solution_sens_wrt_params_adj %}
-    external_function_external_param_casadi nl_constr_h_hess_ux_pdiff_adj_pdiff;
+    external_function_external_param_casadi nl_constr_h_e_hess_ux_pdiff_adj_pdiff;
 {%- endif %}
 {% if code_gen_options.with_value_sens_wrt_params %}
     external_function_external_param_casadi nl_constr_h_e_adj_p;
-- 
2.43.0


From 4581c96e143e86bb65260058254c87117bff02f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:47 +0000
Subject: [PATCH 16/46] fix: multi-phase solver uses the per-phase BGP path
 constraint functions

The generated multi-phase solver did not compile with BGP constraints on path stages.
---
 .../acados_template/c_templates_tera/acados_multi_solver.in.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index 7ddcfa4..a89ac8a 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -2326,9 +2326,9 @@ void {{ name }}_acados_create_setup_nlp_in({{ name }}_solver_capsule* capsule, i
     for (int i = {{ cost_start_idx[jj] }}; i < {{ end_idx[jj] }}; i++)
     {
         i_fun = i - {{ cost_start_idx[jj] }};
-        ocp_nlp_constraints_model_set_external_param_fun(nlp_config, nlp_dims, nlp_in, i, "nl_constr_phi_o_r_fun", &capsule->phi_constraint_fun[i_fun]);
+        ocp_nlp_constraints_model_set_external_param_fun(nlp_config, nlp_dims, nlp_in, i, "nl_constr_phi_o_r_fun", &capsule->phi_constraint_fun_{{ jj }}[i_fun]);
         ocp_nlp_constraints_model_set_external_param_fun(nlp_config, nlp_dims, nlp_in, i,
-                                      "nl_constr_phi_o_r_fun_phi_jac_ux_z_phi_hess_r_jac_ux", &capsule->phi_constraint_fun_jac_hess[i_fun]);
+                                      "nl_constr_phi_o_r_fun_phi_jac_ux_z_phi_hess_r_jac_ux", &capsule->phi_constraint_fun_jac_hess_{{ jj }}[i_fun]);
     }
 {%- endif %}
 {%- endfor %}{# phases loop !#}
-- 
2.43.0


From 7c2fa0bae415fe837afaea4d7d1781faaebc493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:11 +0000
Subject: [PATCH 17/46] fix: zoRO template expands the row index of tightened
 general linear constraints

---
 .../custom_update_function_zoro_template.in.c        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
index bc6cc43..d0fd4c3 100644
--- a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
+++ b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
@@ -698,8 +698,8 @@ static void custom_val_init_function(ocp_nlp_dims *nlp_dims, ocp_nlp_in *nlp_in,
     {%- endfor %}
     // lg
     {%- for it in zoro_description.idx_lg_t %}
-    blasfeo_dgecp(1, nu, &custom_mem->Dg_mat, it, 0, &custom_mem->dct_dux, ir, 0);
-    blasfeo_dgecp(1, nx, &custom_mem->Cg_mat, it, 0, &custom_mem->dct_dux, ir, nu);
+    blasfeo_dgecp(1, nu, &custom_mem->Dg_mat, {{it}}, 0, &custom_mem->dct_dux, ir, 0);
+    blasfeo_dgecp(1, nx, &custom_mem->Cg_mat, {{it}}, 0, &custom_mem->dct_dux, ir, nu);
     ir += 1;
     {%- endfor %}
     // lh
@@ -716,8 +716,8 @@ static void custom_val_init_function(ocp_nlp_dims *nlp_dims, ocp_nlp_in *nlp_in,
     {%- endfor %}
     // ug
     {%- for it in zoro_description.idx_ug_t %}
-    blasfeo_dgecp(1, nu, &custom_mem->Dg_mat, it, 0, &custom_mem->dct_dux, ir, 0);
-    blasfeo_dgecp(1, nx, &custom_mem->Cg_mat, it, 0, &custom_mem->dct_dux, ir, nu);
+    blasfeo_dgecp(1, nu, &custom_mem->Dg_mat, {{it}}, 0, &custom_mem->dct_dux, ir, 0);
+    blasfeo_dgecp(1, nx, &custom_mem->Cg_mat, {{it}}, 0, &custom_mem->dct_dux, ir, nu);
     ir += 1;
     {%- endfor %}
 
@@ -729,7 +729,7 @@ static void custom_val_init_function(ocp_nlp_dims *nlp_dims, ocp_nlp_in *nlp_in,
     {%- endfor %}
     // lg_e
     {%- for it in zoro_description.idx_lg_e_t %}
-    blasfeo_dgecp(1, nx, &custom_mem->Cg_e_mat, it, 0, &custom_mem->dcet_dx, ir, 0);
+    blasfeo_dgecp(1, nx, &custom_mem->Cg_e_mat, {{it}}, 0, &custom_mem->dcet_dx, ir, 0);
     ir += 1;
     {%- endfor %}
     // lh_e (just add offset)
@@ -741,7 +741,7 @@ static void custom_val_init_function(ocp_nlp_dims *nlp_dims, ocp_nlp_in *nlp_in,
     {%- endfor %}
     // ug_e
     {%- for it in zoro_description.idx_ug_e_t %}
-    blasfeo_dgecp(1, nx, &custom_mem->Cg_e_mat, it, 0, &custom_mem->dcet_dx, ir, 0);
+    blasfeo_dgecp(1, nx, &custom_mem->Cg_e_mat, {{it}}, 0, &custom_mem->dcet_dx, ir, 0);
     ir += 1;
     {%- endfor %}
 
-- 
2.43.0


From f1c9ec3e025b895606ece3cc09d5a41488edc3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:46 +0000
Subject: [PATCH 18/46] fix: main_multi calls the custom update without
 undeclared trajectory variables

---
 .../acados_template/c_templates_tera/main_multi.in.c            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/main_multi.in.c b/interfaces/acados_template/acados_template/c_templates_tera/main_multi.in.c
index bdcfcc7..62bea00 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/main_multi.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/main_multi.in.c
@@ -146,7 +146,7 @@ int main()
 
 
 {%- if custom_update_filename != "" %}
-    {{ name }}_acados_custom_update(acados_ocp_capsule, xtraj, NX*(N+1));
+    {{ name }}_acados_custom_update(acados_ocp_capsule, NULL, 0);
 {%- endif %}
 
     // get solution
-- 
2.43.0


From ca025ed3914163746b2978eacb62c7ceb6a0699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:52 +0000
Subject: [PATCH 19/46] fix: multi-phase custom_update returns the status of
 the user function

---
 .../acados_template/c_templates_tera/acados_multi_solver.in.c   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index a89ac8a..064eec2 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -3379,7 +3379,7 @@ int {{ name }}_acados_custom_update({{ name }}_solver_capsule* capsule, double*
     printf("nothing set yet..\n");
     return 1;
 {% else %}
-    custom_update_function(capsule, data, data_len);
+    return custom_update_function(capsule, data, data_len);
 {%- endif %}
 }
 
-- 
2.43.0


From f9351869329efc7466d90d50fa70e81b26c82ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:12 +0000
Subject: [PATCH 20/46] fix: reset integrator and QP scaling timings in SQP_RTI

time_sim, time_sim_la, time_sim_ad and time_qpscaling were accumulated over all
calls, although the timings refer to the last solver call.
---
 acados/ocp_nlp/ocp_nlp_sqp_rti.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp_rti.c b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
index 2fe7e66..d78f416 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_rti.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
@@ -361,12 +361,7 @@ static void ocp_nlp_sqp_rti_cast_workspace(
 // utility functions
 static void reset_stats_and_sub_timers(ocp_nlp_sqp_rti_memory *mem)
 {
-    mem->nlp_mem->nlp_timings->time_lin = 0.0;
-    mem->nlp_mem->nlp_timings->time_reg = 0.0;
-    mem->nlp_mem->nlp_timings->time_qp_sol = 0.0;
-    mem->nlp_mem->nlp_timings->time_qp_solver_call = 0.0;
-    mem->nlp_mem->nlp_timings->time_qp_xcond = 0.0;
-    mem->nlp_mem->nlp_timings->time_glob = 0.0;
+    ocp_nlp_timings_reset(mem->nlp_mem->nlp_timings);
     mem->nlp_mem->iter = 0;
 }
 
-- 
2.43.0


From 2beeda2e93d9a8538ebc371f333a7676c11123ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:12 +0000
Subject: [PATCH 21/46] fix: SQP_WITH_FEASIBLE_QP reports failure if no search
 direction is computed

With search_direction_mode FEASIBILITY_QP (not implemented) the solve returned
ACADOS_SUCCESS without doing anything.
---
 acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
index c6ff89a..8d79712 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
@@ -1536,12 +1536,16 @@ static int calculate_search_direction(ocp_nlp_dims *dims,
         // for the moment we do nothing here!
         printf("Feasibility mode not implemented at the moment!\n");
         mem->search_direction_type = "F";
-        return 1;
+        nlp_mem->status = ACADOS_QP_FAILURE;
+        nlp_mem->nlp_timings->time_tot = acados_toc(&timer_tot);
+        return nlp_mem->status;
     }
     else
     {
         printf("Wrong search direction mode\n");
-        return 1;
+        nlp_mem->status = ACADOS_QP_FAILURE;
+        nlp_mem->nlp_timings->time_tot = acados_toc(&timer_tot);
+        return nlp_mem->status;
     }
 }
 
-- 
2.43.0


From b4339a5d97c4fc3afe807127c6a561d419f2bc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:12 +0000
Subject: [PATCH 22/46] fix: DDP does not check residuals that were not
 evaluated

With eval_residual_at_max_iter == false and max_iter == 0 the termination check
compared residuals of an earlier solve and could report ACADOS_SUCCESS.
---
 acados/ocp_nlp/ocp_nlp_ddp.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_ddp.c b/acados/ocp_nlp/ocp_nlp_ddp.c
index 44a45c8..396f3b6 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.c
+++ b/acados/ocp_nlp/ocp_nlp_ddp.c
@@ -449,6 +449,16 @@ static bool check_termination(int ddp_iter, ocp_nlp_res *nlp_res, ocp_nlp_ddp_me
         return true;
     }
 
+    // check for maximum iterations, residuals are not evaluated in this case
+    if (!nlp_opts->eval_residual_at_max_iter && ddp_iter >= nlp_opts->max_iter)
+    {
+        nlp_mem->status = ACADOS_MAXITER;
+        if (nlp_opts->print_level > 0){
+            printf("Stopped: Maximum Iterations Reached.\n");
+        }
+        return true;
+    }
+
     // We do not need to check for the complementarity condition and for the
     // inequalities since we have an unconstrainted OCP
     if (nlp_res->inf_norm_res_eq < nlp_opts->tol_eq)
-- 
2.43.0


From d093e138df8ecd7a6a578e6628674748815d0afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:12 +0000
Subject: [PATCH 23/46] fix: SQP_RTI reports failures of the globalization and
 of the AS-RTI-A QP

A failing globalization in the feedback step was reported as ACADOS_SUCCESS, in
the AS-RTI preparation the previous status was returned; the status of the QP
solved in the AS-RTI level A preparation was not checked.
---
 acados/ocp_nlp/ocp_nlp_sqp_rti.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp_rti.c b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
index d78f416..d02c471 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_rti.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
@@ -643,6 +643,8 @@ static void ocp_nlp_sqp_rti_feedback_step(ocp_nlp_config *config, ocp_nlp_dims *
         {
             printf("\nFailure in globalization, got status %d (%s)!\n", globalization_status, status_to_string(globalization_status));
         }
+        mem->nlp_mem->status = globalization_status;
+        return;
     }
     mem->nlp_mem->status = ACADOS_SUCCESS;
     mem->is_first_call = false;
@@ -881,6 +883,20 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
             print_ocp_qp_out(nlp_mem->qp_out);
         }
 
+        if ((qp_status!=ACADOS_SUCCESS) & (qp_status!=ACADOS_MAXITER))
+        {
+#ifndef ACADOS_SILENT
+            printf("\nSQP_RTI: QP solver returned error status %d (%s) QP iteration %d.\n",
+                qp_status, status_to_string(qp_status), qp_iter);
+#endif
+            nlp_mem->status = ACADOS_QP_FAILURE;
+#if defined(ACADOS_WITH_OPENMP)
+            // restore number of threads
+            omp_set_num_threads(num_threads_bkp);
+#endif
+            return;
+        }
+
         // update variables
         double step_size;
         globalization_status = config->globalization->find_acceptable_iterate(config, dims, nlp_in, nlp_out, nlp_mem, mem, nlp_work, nlp_opts, &step_size);
@@ -890,6 +906,7 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
             {
                 printf("\n Failure in globalization, got status %d (%s)!\n", globalization_status, status_to_string(globalization_status));
             }
+            nlp_mem->status = globalization_status;
 #if defined(ACADOS_WITH_OPENMP)
             // restore number of threads
             omp_set_num_threads(num_threads_bkp);
@@ -966,6 +983,7 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
                 {
                     printf("\nFailure in globalization, got status %d (%s)!\n", globalization_status, status_to_string(globalization_status));
                 }
+                nlp_mem->status = globalization_status;
 #if defined(ACADOS_WITH_OPENMP)
                 // restore number of threads
                 omp_set_num_threads(num_threads_bkp);
@@ -1038,6 +1056,7 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
                 {
                     printf("\nFailure in globalization, got status %d (%s)!\n", globalization_status, status_to_string(globalization_status));
                 }
+                nlp_mem->status = globalization_status;
 #if defined(ACADOS_WITH_OPENMP)
                 // restore number of threads
                 omp_set_num_threads(num_threads_bkp);
@@ -1112,6 +1131,7 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
                 {
                     printf("\nFailure in globalization, got status %d (%s)!\n", globalization_status, status_to_string(globalization_status));
                 }
+                nlp_mem->status = globalization_status;
 #if defined(ACADOS_WITH_OPENMP)
                 // restore number of threads
                 omp_set_num_threads(num_threads_bkp);
-- 
2.43.0


From 72ebc290d6d2c08de54669e51d24d7701012c6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:18 +0000
Subject: [PATCH 24/46] fix: qpOASES hotstart branch without general
 constraints reports the status of the solver

---
 acados/dense_qp/dense_qp_qpoases.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acados/dense_qp/dense_qp_qpoases.c b/acados/dense_qp/dense_qp_qpoases.c
index 48c03fe..9ef480d 100644
--- a/acados/dense_qp/dense_qp_qpoases.c
+++ b/acados/dense_qp/dense_qp_qpoases.c
@@ -589,7 +589,7 @@ int dense_qp_qpoases(void *config_, dense_qp_in *qp_in, dense_qp_out *qp_out, vo
                     options.terminationTolerance = opts->tolerance;
                     QProblem_setOptions(QP, options);
                 }
-                QProblemB_init(QPB, H, g, d_lb, d_ub, &nwsr, &cputime);
+                qpoases_status = QProblemB_init(QPB, H, g, d_lb, d_ub, &nwsr, &cputime);
                 memory->first_it = 0;
 
                 QProblemB_getPrimalSolution(QPB, prim_sol);
@@ -597,7 +597,7 @@ int dense_qp_qpoases(void *config_, dense_qp_in *qp_in, dense_qp_out *qp_out, vo
             }
             else
             {
-                QProblemB_hotstart(QPB, g, d_lb, d_ub, &nwsr, &cputime);
+                qpoases_status = QProblemB_hotstart(QPB, g, d_lb, d_ub, &nwsr, &cputime);
 
                 QProblemB_getPrimalSolution(QPB, prim_sol);
                 QProblemB_getDualSolution(QPB, dual_sol);
-- 
2.43.0


From 729b3fbffdb8a6313f62320fce4b2da00ecea8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:58 +0000
Subject: [PATCH 25/46] fix: DAQP reports infeasible bounds found before the
 solve as ACADOS_INFEASIBLE

---
 acados/dense_qp/dense_qp_daqp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acados/dense_qp/dense_qp_daqp.c b/acados/dense_qp/dense_qp_daqp.c
index 706a748..1adc7a6 100644
--- a/acados/dense_qp/dense_qp_daqp.c
+++ b/acados/dense_qp/dense_qp_daqp.c
@@ -860,7 +860,7 @@ int dense_qp_daqp(void* config_, dense_qp_in *qp_in, dense_qp_out *qp_out, void
     int daqp_status = dense_qp_daqp_update_memory(qp_in, opts, memory);
     info->interface_time = acados_toc(&interface_timer);
     if (daqp_status < 0)
-        return daqp_status;
+        return daqp_status == DAQP_EXIT_INFEASIBLE ? ACADOS_INFEASIBLE : ACADOS_UNKNOWN;
 
     // === Solve starts ===
     acados_tic(&qp_timer);
-- 
2.43.0


From 28f90375d0e7a9b652c8d10d46a5153061831d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:05 +0000
Subject: [PATCH 26/46] fix: free the nonlinear constraint sensitivity function
 arrays

---
 .../acados_template/c_templates_tera/acados_solver.in.c  | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index 0de8b93..ccbe007 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -3893,6 +3893,15 @@ int {{ name }}_acados_free({{ name }}_solver_capsule* capsule)
   {%- if solver_options.hessian_approx == "EXACT" %}
     free(capsule->nl_constr_h_fun_jac_hess);
   {%- endif %}
+  {%- if code_gen_options.with_solution_sens_wrt_params_forw %}
+    free(capsule->nl_constr_h_jac_p_hess_xu_p);
+  {%- endif %}
+  {%- if code_gen_options.with_solution_sens_wrt_params_adj %}
+    free(capsule->nl_constr_h_hess_ux_pdiff_adj_pdiff);
+  {%- endif %}
+  {%- if code_gen_options.with_value_sens_wrt_params %}
+    free(capsule->nl_constr_h_adj_p);
+  {%- endif %}
 
 {%- elif constraints.constr_type == "BGP" and dims.nphi > 0 %}
     for (int i = 0; i < N-1; i++)
-- 
2.43.0


From 781115bf827041ed73bb48b71945ff37466ee76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:05 +0000
Subject: [PATCH 27/46] fix: free the initial guess buffers in the multi-phase
 example main

---
 .../acados_template/c_templates_tera/main_multi.in.c         | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/main_multi.in.c b/interfaces/acados_template/acados_template/c_templates_tera/main_multi.in.c
index 62bea00..1002ccf 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/main_multi.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/main_multi.in.c
@@ -159,6 +159,11 @@ int main()
     printf("SQP iterations %2d\n minimum time for %d solve %f [ms]\n KKT %e\n",
            sqp_iter, NTIMINGS, min_time*1000, kkt_norm_inf);
 
+    free(x_init);
+    free(u_init);
+    free(x_val);
+    free(u_val);
+
     // free solver
     status = {{ name }}_acados_free(acados_ocp_capsule);
     if (status) {
-- 
2.43.0


From d03b487edbbd9a3f404ad162558b2f4c9bc5e4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:05 +0000
Subject: [PATCH 28/46] fix: create generic implicit DAE functions of the
 integrator before use

---
 .../acados_template/c_templates_tera/acados_sim_solver.in.c    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c
index ce1e02e..d390226 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c
@@ -163,8 +163,11 @@ int {{ name }}_acados_sim_create({{ name }}_sim_solver_capsule * capsule)
 
   {%- else %}
     capsule->sim_impl_dae_fun->fun = &{{ model.dyn_impl_dae_fun }};
+    external_function_param_{{ model.dyn_ext_fun_type }}_create(capsule->sim_impl_dae_fun, np, &ext_fun_opts);
     capsule->sim_impl_dae_fun_jac_x_xdot_z->fun = &{{ model.dyn_impl_dae_fun_jac }};
+    external_function_param_{{ model.dyn_ext_fun_type }}_create(capsule->sim_impl_dae_fun_jac_x_xdot_z, np, &ext_fun_opts);
     capsule->sim_impl_dae_jac_x_xdot_u_z->fun = &{{ model.dyn_impl_dae_jac }};
+    external_function_param_{{ model.dyn_ext_fun_type }}_create(capsule->sim_impl_dae_jac_x_xdot_u_z, np, &ext_fun_opts);
   {%- endif %}
 
 {%- if hessian_approx == "EXACT" %}
-- 
2.43.0


From e463e85e224527d8d72cf08b6cc215a786aa7009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:05 +0000
Subject: [PATCH 29/46] fix: multi-phase constraint sensitivity functions name
 their phase

---
 .../acados_template/c_templates_tera/acados_multi_solver.in.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index 064eec2..b806b2d 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -568,13 +568,13 @@ void {{ name }}_acados_create_setup_functions({{ name }}_solver_capsule* capsule
     }
     {% endif %}
     {%- if code_gen_options.with_solution_sens_wrt_params_forw %}
-    capsule->nl_constr_h_jac_p_hess_xu_p_{ jj } = (external_function_external_param_casadi *) malloc(sizeof(external_function_external_param_casadi)*n_cost_path);
+    capsule->nl_constr_h_jac_p_hess_xu_p_{{ jj }} = (external_function_external_param_casadi *) malloc(sizeof(external_function_external_param_casadi)*n_cost_path);
     for (int i = 0; i < n_cost_path; i++) {
         MAP_CASADI_FNC(nl_constr_h_jac_p_hess_xu_p_{{ jj }}[i], {{ model[jj].name }}_constr_h_jac_p_hess_xu_p);
     }
     {%- endif %}
     {%- if code_gen_options.with_value_sens_wrt_params %}
-    capsule->nl_constr_h_adj_p_{ jj } = (external_function_external_param_casadi *) malloc(sizeof(external_function_external_param_casadi)*n_cost_path);
+    capsule->nl_constr_h_adj_p_{{ jj }} = (external_function_external_param_casadi *) malloc(sizeof(external_function_external_param_casadi)*n_cost_path);
     for (int i = 0; i < n_cost_path; i++) {
         MAP_CASADI_FNC(nl_constr_h_adj_p_{{ jj }}[i], {{ model[jj].name }}_constr_h_adj_p);
     }
-- 
2.43.0


From 3af5ed4df8ff91a43bbe7533b797f1c7fac230de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:04 +0000
Subject: [PATCH 30/46] fix: GNSF dimensions of several phases are set in their
 own block

---
 .../acados_template/c_templates_tera/acados_multi_solver.in.c   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index b806b2d..d3318d3 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -400,6 +400,7 @@ ocp_nlp_dims* {{ name }}_acados_create_setup_dimensions({{ name }}_solver_capsul
 
   {%- if mocp_opts.integrator_type[jj] == "GNSF" -%}
     // GNSF specific dimensions
+    {
     int gnsf_nx1 = {{ model[jj].gnsf_model.dims.nx1 }};
     int gnsf_nz1 = {{ model[jj].gnsf_model.dims.nz1 }};
     int gnsf_nout = {{ model[jj].gnsf_model.dims.nout }};
@@ -414,6 +415,7 @@ ocp_nlp_dims* {{ name }}_acados_create_setup_dimensions({{ name }}_solver_capsul
         ocp_nlp_dims_set_dynamics(nlp_config, nlp_dims, i, "gnsf_ny", &gnsf_ny);
         ocp_nlp_dims_set_dynamics(nlp_config, nlp_dims, i, "gnsf_nuhat", &gnsf_nuhat);
     }
+    }
   {%- endif %}
 
   {%- if mocp_opts.cost_discretization[jj] == "INTEGRATOR" %}
-- 
2.43.0


From 6b07392ab274b216756d323e1a1d90d19506049b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:38 +0000
Subject: [PATCH 31/46] fix: multi-phase solvers pass
 warm_start_first_qp_from_nlp under its own name

---
 .../c_templates_tera/acados_multi_solver.in.c               | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index d3318d3..87659cb 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -2474,14 +2474,14 @@ void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule)
     int globalization_full_step_dual = {{ solver_options.globalization_full_step_dual }};
     ocp_nlp_solver_opts_set(nlp_config, capsule->nlp_opts, "globalization_full_step_dual", &globalization_full_step_dual);
 
-    {%- if solver_options.nlp_solver_warm_start_first_qp_from_nlp %}
+    {%- if solver_options.nlp_solver_warm_start_first_qp %}
     int nlp_solver_warm_start_first_qp = {{ solver_options.nlp_solver_warm_start_first_qp }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "warm_start_first_qp", &nlp_solver_warm_start_first_qp);
     {%- endif %}
 
     {%- if solver_options.nlp_solver_warm_start_first_qp_from_nlp %}
-    int nlp_solver_warm_start_first_qp_from_nlp = {{ solver_options.nlp_solver_warm_start_first_qp_from_nlp }};
-    ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "warm_start_first_qp", &nlp_solver_warm_start_first_qp_from_nlp);
+    bool nlp_solver_warm_start_first_qp_from_nlp = {{ solver_options.nlp_solver_warm_start_first_qp_from_nlp }};
+    ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "warm_start_first_qp_from_nlp", &nlp_solver_warm_start_first_qp_from_nlp);
     {%- endif %}
 
     double levenberg_marquardt = {{ solver_options.levenberg_marquardt }};
-- 
2.43.0


From a5534ecf7f0e5396b2eaa59f023b1a41907a7f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:48 +0000
Subject: [PATCH 32/46] fix: SQP with feasible QP: parallel stage loops keep
 their size variable private

---
 acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
index 8d79712..dcf0a72 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
@@ -916,7 +916,6 @@ static void setup_hessian_matrices_for_qps(ocp_nlp_config *config,
     int *nu = dims->nu;
     int *ns = dims->ns;
 
-    int nxu;
 #if defined(ACADOS_WITH_OPENMP)
     #pragma omp parallel for
 #endif
@@ -924,7 +923,7 @@ static void setup_hessian_matrices_for_qps(ocp_nlp_config *config,
     {
         /* Hessian matrices */
         // hess_QP = hess_cost + hess_constraints
-        nxu = nx[i]+nu[i];
+        int nxu = nx[i]+nu[i];
 
         if (opts->use_constraint_hessian_in_feas_qp)
         {
@@ -1382,7 +1381,6 @@ static void initial_setup_feasibility_qp_objective(ocp_nlp_config *config,
     int *ns = dims->ns;
     int *nns = mem->nns;
 
-    int nxu;
 #if defined(ACADOS_WITH_OPENMP)
     #pragma omp parallel for
 #endif
@@ -1390,7 +1388,7 @@ static void initial_setup_feasibility_qp_objective(ocp_nlp_config *config,
     {
         /* Hessian matrices */
         // hess_QP = hess_cost + hess_constraints
-        nxu = nx[i]+nu[i];
+        int nxu = nx[i]+nu[i];
 
         blasfeo_dgese(nxu, nxu, 0.0, relaxed_qp_in->RSQrq+i, 0, 0);
         if (!opts->use_constraint_hessian_in_feas_qp)
-- 
2.43.0


From 9c7fce91aa217b6464c16c87b017d73802cc01c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:48 +0000
Subject: [PATCH 33/46] fix: QP output vector operations keep the stage size
 private to each thread

---
 acados/ocp_qp/ocp_qp_common.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/acados/ocp_qp/ocp_qp_common.c b/acados/ocp_qp/ocp_qp_common.c
index 2a39fa7..af29264 100644
--- a/acados/ocp_qp/ocp_qp_common.c
+++ b/acados/ocp_qp/ocp_qp_common.c
@@ -342,14 +342,13 @@ void ocp_qp_out_axpy(double alpha, ocp_qp_out* x, ocp_qp_out* y, ocp_qp_out* z)
     int *nx = dims->nx;
     int *nu = dims->nu;
     int *ns = dims->ns;
-    int ni_stage;
 
 #if defined(ACADOS_WITH_OPENMP)
     #pragma omp parallel for
 #endif
     for (int i = 0; i <= N; i++)
     {
-        ni_stage = ocp_qp_dims_get_ni(dims, i);
+        int ni_stage = ocp_qp_dims_get_ni(dims, i);
         blasfeo_daxpy(nx[i]+nu[i]+2*ns[i], alpha, x->ux+i, 0, y->ux+i, 0, z->ux+i, 0);
         blasfeo_daxpy(2*ni_stage, alpha, x->lam+i, 0, y->lam+i, 0, z->lam+i, 0);
         if (i < N)
@@ -427,14 +426,13 @@ void ocp_qp_out_set_to_zero(ocp_qp_out* x)
     int *nx = dims->nx;
     int *nu = dims->nu;
     int *ns = dims->ns;
-    int ni_stage;
 
 #if defined(ACADOS_WITH_OPENMP)
     #pragma omp parallel for
 #endif
     for (int i = 0; i <= N; i++)
     {
-        ni_stage = ocp_qp_dims_get_ni(dims, i);
+        int ni_stage = ocp_qp_dims_get_ni(dims, i);
         blasfeo_dvecse(nx[i]+nu[i]+2*ns[i], 0.0, x->ux+i, 0);
         blasfeo_dvecse(2*ni_stage, 0.0, x->lam+i, 0);
         if (i < N)
@@ -453,14 +451,13 @@ void ocp_qp_out_sc(double alpha, ocp_qp_out* x)
     int *nx = dims->nx;
     int *nu = dims->nu;
     int *ns = dims->ns;
-    int ni_stage;
 
 #if defined(ACADOS_WITH_OPENMP)
     #pragma omp parallel for
 #endif
     for (int i = 0; i <= N; i++)
     {
-        ni_stage = ocp_qp_dims_get_ni(dims, i);
+        int ni_stage = ocp_qp_dims_get_ni(dims, i);
         blasfeo_dvecsc(nx[i]+nu[i]+2*ns[i], alpha, x->ux+i, 0);
         blasfeo_dvecsc(2*ni_stage, alpha, x->lam+i, 0);
         if (i < N)
@@ -480,14 +477,13 @@ void ocp_qp_out_add(double alpha, ocp_qp_out* x, ocp_qp_out* y)
     int *nx = dims->nx;
     int *nu = dims->nu;
     int *ns = dims->ns;
-    int ni_stage;
 
 #if defined(ACADOS_WITH_OPENMP)
     #pragma omp parallel for
 #endif
     for (int i = 0; i <= N; i++)
     {
-        ni_stage = ocp_qp_dims_get_ni(dims, i);
+        int ni_stage = ocp_qp_dims_get_ni(dims, i);
         blasfeo_dvecad(nx[i]+nu[i]+2*ns[i], alpha, x->ux+i, 0, y->ux+i, 0);
         blasfeo_dvecad(2*ni_stage, alpha, x->lam+i, 0, y->lam+i, 0);
         if (i < N)
-- 
2.43.0


From b0f72425a08315ae88a39e747704fb9b4dc18cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:48 +0000
Subject: [PATCH 34/46] fix: ocp_qp_out_ddot sums the stages serially (shared
 sum and work vector)

---
 acados/ocp_qp/ocp_qp_common.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/acados/ocp_qp/ocp_qp_common.c b/acados/ocp_qp/ocp_qp_common.c
index af29264..411a142 100644
--- a/acados/ocp_qp/ocp_qp_common.c
+++ b/acados/ocp_qp/ocp_qp_common.c
@@ -373,9 +373,6 @@ double ocp_qp_out_ddot(ocp_qp_out *x, ocp_qp_out *y, struct blasfeo_dvec *work_t
     int tmp_nbg;
     double out = 0.0;
 
-#if defined(ACADOS_WITH_OPENMP)
-    #pragma omp parallel for
-#endif
     for (int i = 0; i <= N; i++)
     {
         // primal
-- 
2.43.0


From 69a587a3e191d1f1661104428a3931883c309d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:10 +0000
Subject: [PATCH 35/46] fix: globalization_fixed_step_length accepts exactly
 floats in [0, 1]

---
 .../acados_template/acados_template/acados_ocp_options.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_options.py b/interfaces/acados_template/acados_template/acados_ocp_options.py
index f8bada2..75d5286 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_options.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_options.py
@@ -583,7 +583,7 @@ class AcadosOcpOptions:
 
     @globalization_fixed_step_length.setter
     def globalization_fixed_step_length(self, globalization_fixed_step_length):
-        if isinstance(globalization_fixed_step_length, float) and globalization_fixed_step_length >= 0 or globalization_fixed_step_length <= 1.0:
+        if isinstance(globalization_fixed_step_length, float) and globalization_fixed_step_length >= 0 and globalization_fixed_step_length <= 1.0:
             self.__globalization_fixed_step_length = globalization_fixed_step_length
         else:
             raise ValueError('Invalid globalization_fixed_step_length value. globalization_fixed_step_length must be a float in [0, 1].')
-- 
2.43.0


From 580306be39184fc2275d212785d81ece2d6df7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:10 +0000
Subject: [PATCH 36/46] fix: adaptive Levenberg-Marquardt options reject the
 excluded bound of their documented range

---
 .../acados_template/acados_template/acados_ocp_options.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_options.py b/interfaces/acados_template/acados_template/acados_ocp_options.py
index 75d5286..7f38ba9 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_options.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_options.py
@@ -1314,7 +1314,7 @@ class AcadosOcpOptions:
 
     @adaptive_levenberg_marquardt_lam.setter
     def adaptive_levenberg_marquardt_lam(self, adaptive_levenberg_marquardt_lam):
-        if isinstance(adaptive_levenberg_marquardt_lam, float) and adaptive_levenberg_marquardt_lam >= 1.0:
+        if isinstance(adaptive_levenberg_marquardt_lam, float) and adaptive_levenberg_marquardt_lam > 1.0:
             self.__adaptive_levenberg_marquardt_lam = adaptive_levenberg_marquardt_lam
         else:
             raise ValueError('Invalid adaptive_levenberg_marquardt_lam value. adaptive_levenberg_marquardt_lam must be a float greater 1.0.')
@@ -1331,7 +1331,7 @@ class AcadosOcpOptions:
 
     @adaptive_levenberg_marquardt_mu_min.setter
     def adaptive_levenberg_marquardt_mu_min(self, adaptive_levenberg_marquardt_mu_min):
-        if isinstance(adaptive_levenberg_marquardt_mu_min, float) and adaptive_levenberg_marquardt_mu_min >= 0.0:
+        if isinstance(adaptive_levenberg_marquardt_mu_min, float) and adaptive_levenberg_marquardt_mu_min > 0.0:
             self.__adaptive_levenberg_marquardt_mu_min = adaptive_levenberg_marquardt_mu_min
         else:
             raise ValueError('Invalid adaptive_levenberg_marquardt_mu_min value. adaptive_levenberg_marquardt_mu_min must be a positive float.')
@@ -1348,7 +1348,7 @@ class AcadosOcpOptions:
 
     @adaptive_levenberg_marquardt_mu0.setter
     def adaptive_levenberg_marquardt_mu0(self, adaptive_levenberg_marquardt_mu0):
-        if isinstance(adaptive_levenberg_marquardt_mu0, float) and adaptive_levenberg_marquardt_mu0 >= 0.0:
+        if isinstance(adaptive_levenberg_marquardt_mu0, float) and adaptive_levenberg_marquardt_mu0 > 0.0:
             self.__adaptive_levenberg_marquardt_mu0 = adaptive_levenberg_marquardt_mu0
         else:
             raise ValueError('Invalid adaptive_levenberg_marquardt_mu0 value. adaptive_levenberg_marquardt_mu0 must be a positive float.')
@@ -1367,7 +1367,7 @@ class AcadosOcpOptions:
 
     @adaptive_levenberg_marquardt_obj_scalar.setter
     def adaptive_levenberg_marquardt_obj_scalar(self, adaptive_levenberg_marquardt_obj_scalar):
-        if isinstance(adaptive_levenberg_marquardt_obj_scalar, float) and adaptive_levenberg_marquardt_obj_scalar >= 0.0:
+        if isinstance(adaptive_levenberg_marquardt_obj_scalar, float) and adaptive_levenberg_marquardt_obj_scalar > 0.0:
             self.__adaptive_levenberg_marquardt_obj_scalar = adaptive_levenberg_marquardt_obj_scalar
         else:
             raise ValueError('Invalid adaptive_levenberg_marquardt_obj_scalar value. adaptive_levenberg_marquardt_obj_scalar must be a positive float.')
-- 
2.43.0


From 4339bcea952e8f823b25e1c799b255260670d945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:10 +0000
Subject: [PATCH 37/46] fix: AcadosSimOptions accepts the documented
 collocation type EXPLICIT_RUNGE_KUTTA

---
 interfaces/acados_template/acados_template/acados_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_sim.py b/interfaces/acados_template/acados_template/acados_sim.py
index ef86479..3635a67 100644
--- a/interfaces/acados_template/acados_template/acados_sim.py
+++ b/interfaces/acados_template/acados_template/acados_sim.py
@@ -266,7 +266,7 @@ class AcadosSimOptions:
 
     @collocation_type.setter
     def collocation_type(self, collocation_type):
-        collocation_types = ('GAUSS_RADAU_IIA', 'GAUSS_LEGENDRE')
+        collocation_types = ('GAUSS_RADAU_IIA', 'GAUSS_LEGENDRE', 'EXPLICIT_RUNGE_KUTTA')
         if collocation_type in collocation_types:
             self.__collocation_type = collocation_type
         else:
-- 
2.43.0


From 50eecd587c25958113100406e0a00d58b6e9b82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:34 +0000
Subject: [PATCH 38/46] fix: bounds of convex-over-nonlinear constraints must
 have the size of con_phi_expr

---
 interfaces/acados_template/acados_template/acados_ocp.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 72d678c..37dd396 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -522,6 +522,9 @@ class AcadosOcp:
             else:
                 dims.nr_0 = casadi_length(model.con_r_expr_0)
 
+        if constraints.uphi_0.shape[0] != dims.nphi_0 or constraints.lphi_0.shape[0] != dims.nphi_0:
+            raise ValueError('inconsistent dimension nphi_0, regarding lphi_0, uphi_0, con_phi_expr_0.')
+
         if constraints.constr_type_0 == "BGP" and dims.nh_0 > 0:
             raise ValueError('constr_type_0 BGP does not support nonlinear constraints of the form con_h_expr_0.')
 
@@ -585,6 +588,9 @@ class AcadosOcp:
             else:
                 dims.nr = casadi_length(model.con_r_expr)
 
+        if constraints.uphi.shape[0] != dims.nphi or constraints.lphi.shape[0] != dims.nphi:
+            raise ValueError('inconsistent dimension nphi, regarding lphi, uphi, con_phi_expr.')
+
         if constraints.constr_type == "BGP" and dims.nh > 0:
             raise ValueError('constr_type BGP does not support nonlinear constraints of the form con_h_expr.')
 
@@ -626,6 +632,9 @@ class AcadosOcp:
             else:
                 dims.nr_e = casadi_length(model.con_r_expr_e)
 
+        if constraints.uphi_e.shape[0] != dims.nphi_e or constraints.lphi_e.shape[0] != dims.nphi_e:
+            raise ValueError('inconsistent dimension nphi_e, regarding lphi_e, uphi_e, con_phi_expr_e.')
+
         if constraints.constr_type_e == "BGP" and dims.nh_e > 0:
             raise ValueError('constr_type_e BGP does not support nonlinear constraints of the form con_h_expr_e.')
 
-- 
2.43.0


From 51638fdaa5db6aa9dbb12b896c130ddac7c95c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:34 +0000
Subject: [PATCH 39/46] fix: C_e must have nx columns

---
 interfaces/acados_template/acados_template/acados_ocp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 37dd396..b1bbe66 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -614,6 +614,9 @@ class AcadosOcp:
         else:
             dims.ng_e = ng_e
 
+        if ng_e > 0 and constraints.C_e.shape[1] != dims.nx:
+            raise ValueError(f'inconsistent dimension nx, regarding C_e, got C_e.shape[1] = {constraints.C_e.shape[1]}.')
+
         nh_e = 0 if is_empty(model.con_h_expr_e) else casadi_length(model.con_h_expr_e)
 
         if constraints.uh_e.shape[0] != nh_e or constraints.lh_e.shape[0] != nh_e:
-- 
2.43.0


From 43dd5dd7e8197e3d49c31dcfa5582f41fa7217a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:34 +0000
Subject: [PATCH 40/46] fix: Vz and Vz_0 must have nz columns

---
 interfaces/acados_template/acados_template/acados_ocp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index b1bbe66..ecdd2d7 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -300,6 +300,8 @@ class AcadosOcp:
                 raise ValueError('inconsistent dimension: Vx_0 should have nx columns.')
             if cost.Vu_0.shape[1] != dims.nu and ny_0 != 0:
                 raise ValueError('inconsistent dimension: Vu_0 should have nu columns.')
+            if dims.nz != 0 and cost.Vz_0.shape[1] != dims.nz and ny_0 != 0:
+                raise ValueError('inconsistent dimension: Vz_0 should have nz columns.')
             if cost.yref_0.shape[0] != ny_0:
                 raise ValueError('inconsistent dimension: regarding W_0, yref_0.' + \
                                 f'\nGot W_0[{cost.W_0.shape}], yref_0[{cost.yref_0.shape}]\n')
@@ -373,6 +375,8 @@ class AcadosOcp:
                 raise ValueError('inconsistent dimension: Vx should have nx columns.')
             if cost.Vu.shape[1] != dims.nu and ny != 0:
                 raise ValueError('inconsistent dimension: Vu should have nu columns.')
+            if dims.nz != 0 and cost.Vz.shape[1] != dims.nz and ny != 0:
+                raise ValueError('inconsistent dimension: Vz should have nz columns.')
             if cost.yref.shape[0] != ny:
                 raise ValueError('inconsistent dimension: regarding W, yref.' + \
                                 f'\nGot W[{cost.W.shape}], yref[{cost.yref.shape}]\n')
-- 
2.43.0


From 9be359a536feb2824e0345c4fae95e4ed5228a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:06 +0000
Subject: [PATCH 41/46] fix: negative indices of bounds and slacks are rejected

---
 .../acados_template/acados_ocp.py             | 64 +++++++++----------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index ecdd2d7..b5985c2 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -495,8 +495,8 @@ class AcadosOcp:
         dims.nbx_0 = nbx_0
         if constraints.ubx_0.shape[0] != nbx_0 or constraints.lbx_0.shape[0] != nbx_0:
             raise ValueError('inconsistent dimension nbx_0, regarding idxbx_0, ubx_0, lbx_0.')
-        if any(constraints.idxbx_0 >= dims.nx):
-            raise ValueError(f'idxbx_0 = {constraints.idxbx_0} contains value >= nx = {dims.nx}.')
+        if any(constraints.idxbx_0 < 0) or any(constraints.idxbx_0 >= dims.nx):
+            raise ValueError(f'idxbx_0 = {constraints.idxbx_0} contains value < 0 or >= nx = {dims.nx}.')
 
         if constraints.has_x0 and dims.nbx_0 != dims.nx:
             raise ValueError(f"x0 should have shape nx = {dims.nx}.")
@@ -505,8 +505,8 @@ class AcadosOcp:
             raise ValueError(f"idxbxe_0 should be 0:{dims.nx} if x0 is set.")
 
         dims.nbxe_0 = constraints.idxbxe_0.shape[0]
-        if any(constraints.idxbxe_0 >= dims.nbx_0):
-            raise ValueError(f'idxbxe_0 = {constraints.idxbxe_0} contains value >= nbx_0 = {dims.nbx_0}.')
+        if any(constraints.idxbxe_0 < 0) or any(constraints.idxbxe_0 >= dims.nbx_0):
+            raise ValueError(f'idxbxe_0 = {constraints.idxbxe_0} contains value < 0 or >= nbx_0 = {dims.nbx_0}.')
 
         nh_0 = 0 if is_empty(model.con_h_expr_0) else casadi_length(model.con_h_expr_0)
 
@@ -546,16 +546,16 @@ class AcadosOcp:
             raise ValueError('inconsistent dimension nbx, regarding idxbx, ubx, lbx.')
         else:
             dims.nbx = nbx
-        if any(constraints.idxbx >= dims.nx):
-            raise ValueError(f'idxbx = {constraints.idxbx} contains value >= nx = {dims.nx}.')
+        if any(constraints.idxbx < 0) or any(constraints.idxbx >= dims.nx):
+            raise ValueError(f'idxbx = {constraints.idxbx} contains value < 0 or >= nx = {dims.nx}.')
 
         nbu = constraints.idxbu.shape[0]
         if constraints.ubu.shape[0] != nbu or constraints.lbu.shape[0] != nbu:
             raise ValueError('inconsistent dimension nbu, regarding idxbu, ubu, lbu.')
         else:
             dims.nbu = nbu
-        if any(constraints.idxbu >= dims.nu):
-            raise ValueError(f'idxbu = {constraints.idxbu} contains value >= nu = {dims.nu}.')
+        if any(constraints.idxbu < 0) or any(constraints.idxbu >= dims.nu):
+            raise ValueError(f'idxbu = {constraints.idxbu} contains value < 0 or >= nu = {dims.nu}.')
 
         # lg <= C * x + D * u <= ug
         ng = constraints.lg.shape[0]
@@ -609,8 +609,8 @@ class AcadosOcp:
             raise ValueError('inconsistent dimension nbx_e, regarding idxbx_e, ubx_e, lbx_e.')
         else:
             dims.nbx_e = nbx_e
-        if any(constraints.idxbx_e >= dims.nx):
-            raise ValueError(f'idxbx_e = {constraints.idxbx_e} contains value >= nx = {dims.nx}.')
+        if any(constraints.idxbx_e < 0) or any(constraints.idxbx_e >= dims.nx):
+            raise ValueError(f'idxbx_e = {constraints.idxbx_e} contains value < 0 or >= nx = {dims.nx}.')
 
         ng_e = constraints.lg_e.shape[0]
         if constraints.ug_e.shape[0] != ng_e or constraints.C_e.shape[0] != ng_e:
@@ -700,8 +700,8 @@ class AcadosOcp:
         nsh_0 = constraints.idxsh_0.shape[0]
         if nsh_0 > nh_0:
             raise ValueError(f'inconsistent dimension nsh_0 = {nsh_0}. Is greater than nh_0 = {nh_0}.')
-        if any(constraints.idxsh_0 >= nh_0):
-            raise ValueError(f'idxsh_0 = {constraints.idxsh_0} contains value >= nh_0 = {nh_0}.')
+        if any(constraints.idxsh_0 < 0) or any(constraints.idxsh_0 >= nh_0):
+            raise ValueError(f'idxsh_0 = {constraints.idxsh_0} contains value < 0 or >= nh_0 = {nh_0}.')
         if is_empty(constraints.lsh_0):
             constraints.lsh_0 = np.zeros((nsh_0,))
         elif constraints.lsh_0.shape[0] != nsh_0:
@@ -715,8 +715,8 @@ class AcadosOcp:
         nsphi_0 = constraints.idxsphi_0.shape[0]
         if nsphi_0 > dims.nphi_0:
             raise ValueError(f'inconsistent dimension nsphi_0 = {nsphi_0}. Is greater than nphi_0 = {dims.nphi_0}.')
-        if any(constraints.idxsphi_0 >= dims.nphi_0):
-            raise ValueError(f'idxsphi_0 = {constraints.idxsphi_0} contains value >= nphi_0 = {dims.nphi_0}.')
+        if any(constraints.idxsphi_0 < 0) or any(constraints.idxsphi_0 >= dims.nphi_0):
+            raise ValueError(f'idxsphi_0 = {constraints.idxsphi_0} contains value < 0 or >= nphi_0 = {dims.nphi_0}.')
         if is_empty(constraints.lsphi_0):
             constraints.lsphi_0 = np.zeros((nsphi_0,))
         elif constraints.lsphi_0.shape[0] != nsphi_0:
@@ -810,8 +810,8 @@ class AcadosOcp:
         nsbx = constraints.idxsbx.shape[0]
         if nsbx > nbx:
             raise ValueError(f'inconsistent dimension nsbx = {nsbx}. Is greater than nbx = {nbx}.')
-        if any(constraints.idxsbx >= nbx):
-            raise ValueError(f'idxsbx = {constraints.idxsbx} contains value >= nbx = {nbx}.')
+        if any(constraints.idxsbx < 0) or any(constraints.idxsbx >= nbx):
+            raise ValueError(f'idxsbx = {constraints.idxsbx} contains value < 0 or >= nbx = {nbx}.')
         if is_empty(constraints.lsbx):
             constraints.lsbx = np.zeros((nsbx,))
         elif constraints.lsbx.shape[0] != nsbx:
@@ -825,8 +825,8 @@ class AcadosOcp:
         nsbu = constraints.idxsbu.shape[0]
         if nsbu > nbu:
             raise ValueError(f'inconsistent dimension nsbu = {nsbu}. Is greater than nbu = {nbu}.')
-        if any(constraints.idxsbu >= nbu):
-            raise ValueError(f'idxsbu = {constraints.idxsbu} contains value >= nbu = {nbu}.')
+        if any(constraints.idxsbu < 0) or any(constraints.idxsbu >= nbu):
+            raise ValueError(f'idxsbu = {constraints.idxsbu} contains value < 0 or >= nbu = {nbu}.')
         if is_empty(constraints.lsbu):
             constraints.lsbu = np.zeros((nsbu,))
         elif constraints.lsbu.shape[0] != nsbu:
@@ -840,8 +840,8 @@ class AcadosOcp:
         nsh = constraints.idxsh.shape[0]
         if nsh > nh:
             raise ValueError(f'inconsistent dimension nsh = {nsh}. Is greater than nh = {nh}.')
-        if any(constraints.idxsh >= nh):
-            raise ValueError(f'idxsh = {constraints.idxsh} contains value >= nh = {nh}.')
+        if any(constraints.idxsh < 0) or any(constraints.idxsh >= nh):
+            raise ValueError(f'idxsh = {constraints.idxsh} contains value < 0 or >= nh = {nh}.')
         if is_empty(constraints.lsh):
             constraints.lsh = np.zeros((nsh,))
         elif constraints.lsh.shape[0] != nsh:
@@ -855,8 +855,8 @@ class AcadosOcp:
         nsphi = constraints.idxsphi.shape[0]
         if nsphi > dims.nphi:
             raise ValueError(f'inconsistent dimension nsphi = {nsphi}. Is greater than nphi = {dims.nphi}.')
-        if any(constraints.idxsphi >= dims.nphi):
-            raise ValueError(f'idxsphi = {constraints.idxsphi} contains value >= nphi = {dims.nphi}.')
+        if any(constraints.idxsphi < 0) or any(constraints.idxsphi >= dims.nphi):
+            raise ValueError(f'idxsphi = {constraints.idxsphi} contains value < 0 or >= nphi = {dims.nphi}.')
         if is_empty(constraints.lsphi):
             constraints.lsphi = np.zeros((nsphi,))
         elif constraints.lsphi.shape[0] != nsphi:
@@ -870,8 +870,8 @@ class AcadosOcp:
         nsg = constraints.idxsg.shape[0]
         if nsg > ng:
             raise ValueError(f'inconsistent dimension nsg = {nsg}. Is greater than ng = {ng}.')
-        if any(constraints.idxsg >= ng):
-            raise ValueError(f'idxsg = {constraints.idxsg} contains value >= ng = {ng}.')
+        if any(constraints.idxsg < 0) or any(constraints.idxsg >= ng):
+            raise ValueError(f'idxsg = {constraints.idxsg} contains value < 0 or >= ng = {ng}.')
         if is_empty(constraints.lsg):
             constraints.lsg = np.zeros((nsg,))
         elif constraints.lsg.shape[0] != nsg:
@@ -940,8 +940,8 @@ class AcadosOcp:
         nsbx_e = constraints.idxsbx_e.shape[0]
         if nsbx_e > nbx_e:
             raise ValueError(f'inconsistent dimension nsbx_e = {nsbx_e}. Is greater than nbx_e = {nbx_e}.')
-        if any(constraints.idxsbx_e >= nbx_e):
-            raise ValueError(f'idxsbx_e = {constraints.idxsbx_e} contains value >= nbx_e = {nbx_e}.')
+        if any(constraints.idxsbx_e < 0) or any(constraints.idxsbx_e >= nbx_e):
+            raise ValueError(f'idxsbx_e = {constraints.idxsbx_e} contains value < 0 or >= nbx_e = {nbx_e}.')
         if is_empty(constraints.lsbx_e):
             constraints.lsbx_e = np.zeros((nsbx_e,))
         elif constraints.lsbx_e.shape[0] != nsbx_e:
@@ -955,8 +955,8 @@ class AcadosOcp:
         nsh_e = constraints.idxsh_e.shape[0]
         if nsh_e > nh_e:
             raise ValueError(f'inconsistent dimension nsh_e = {nsh_e}. Is greater than nh_e = {nh_e}.')
-        if any(constraints.idxsh_e >= nh_e):
-            raise ValueError(f'idxsh_e = {constraints.idxsh_e} contains value >= nh_e = {nh_e}.')
+        if any(constraints.idxsh_e < 0) or any(constraints.idxsh_e >= nh_e):
+            raise ValueError(f'idxsh_e = {constraints.idxsh_e} contains value < 0 or >= nh_e = {nh_e}.')
         if is_empty(constraints.lsh_e):
             constraints.lsh_e = np.zeros((nsh_e,))
         elif constraints.lsh_e.shape[0] != nsh_e:
@@ -970,8 +970,8 @@ class AcadosOcp:
         nsphi_e = constraints.idxsphi_e.shape[0]
         if nsphi_e > dims.nphi_e:
             raise ValueError(f'inconsistent dimension nsphi_e = {nsphi_e}. Is greater than nphi_e = {dims.nphi_e}.')
-        if any(constraints.idxsphi_e >= dims.nphi_e):
-            raise ValueError(f'idxsphi_e = {constraints.idxsphi_e} contains value >= nphi_e = {dims.nphi_e}.')
+        if any(constraints.idxsphi_e < 0) or any(constraints.idxsphi_e >= dims.nphi_e):
+            raise ValueError(f'idxsphi_e = {constraints.idxsphi_e} contains value < 0 or >= nphi_e = {dims.nphi_e}.')
         if is_empty(constraints.lsphi_e):
             constraints.lsphi_e = np.zeros((nsphi_e,))
         elif constraints.lsphi_e.shape[0] != nsphi_e:
@@ -985,8 +985,8 @@ class AcadosOcp:
         nsg_e = constraints.idxsg_e.shape[0]
         if nsg_e > ng_e:
             raise ValueError(f'inconsistent dimension nsg_e = {nsg_e}. Is greater than ng_e = {ng_e}.')
-        if any(constraints.idxsg_e >= ng_e):
-            raise ValueError(f'idxsg_e = {constraints.idxsg_e} contains value >= ng_e = {ng_e}.')
+        if any(constraints.idxsg_e < 0) or any(constraints.idxsg_e >= ng_e):
+            raise ValueError(f'idxsg_e = {constraints.idxsg_e} contains value < 0 or >= ng_e = {ng_e}.')
         if is_empty(constraints.lsg_e):
             constraints.lsg_e = np.zeros((nsg_e,))
         elif constraints.lsg_e.shape[0] != nsg_e:
-- 
2.43.0


From 8209452148bda08a04f17402d320c104c82ded47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:55 +0000
Subject: [PATCH 42/46] fix: buffer of the integrator dimension query holds
 both integers it writes

---
 interfaces/acados_template/acados_template/acados_sim_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_sim_solver.py b/interfaces/acados_template/acados_template/acados_sim_solver.py
index fc611f6..7d81712 100644
--- a/interfaces/acados_template/acados_template/acados_sim_solver.py
+++ b/interfaces/acados_template/acados_template/acados_sim_solver.py
@@ -390,7 +390,7 @@ class AcadosSimSolver:
 
         if field_ in self.gettable_vectors:
             # get dims
-            dims = np.zeros((1,), dtype=np.intc, order='F')
+            dims = np.zeros((2,), dtype=np.intc, order='F')
             dims_data = cast(dims.ctypes.data, POINTER(c_int))
 
             self.__acados_lib.sim_dims_get_from_attr(self.sim_config, self.sim_dims, field, dims_data)
-- 
2.43.0


From 698af7d15c2d1bd4c4f454ab015dffc276fab3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:55 +0000
Subject: [PATCH 43/46] fix: AcadosSimSolver.set passes the flattened array
 instead of the released one

---
 interfaces/acados_template/acados_template/acados_sim_solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_sim_solver.py b/interfaces/acados_template/acados_template/acados_sim_solver.py
index 7d81712..e7c38fa 100644
--- a/interfaces/acados_template/acados_template/acados_sim_solver.py
+++ b/interfaces/acados_template/acados_template/acados_sim_solver.py
@@ -466,6 +466,8 @@ class AcadosSimSolver:
 
             # TODO: isn't the shape check afterwards meaningless if we ravel first?
             value_ = np.ravel(value_, order='F')
+            value_data = cast(value_.ctypes.data, POINTER(c_double))
+            value_data_p = cast((value_data), c_void_p)
 
             value_shape = value_.shape
             if len(value_shape) == 1:
-- 
2.43.0


From 06ec29f675a116d359e496a478183deae233678c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:55 +0000
Subject: [PATCH 44/46] fix: set_params_sparse hands contiguous values to C

---
 interfaces/acados_template/acados_template/acados_ocp_solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index 006d00b..cc4aca3 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -2642,6 +2642,7 @@ class AcadosOcpSolver:
         stage = c_int(stage_)
         n_update = c_int(len(param_values_))
 
+        param_values_ = np.ascontiguousarray(param_values_)
         param_data = cast(param_values_.ctypes.data, POINTER(c_double))
         c_idx_values = np.ascontiguousarray(idx_values_, dtype=np.intc)
         idx_data = cast(c_idx_values.ctypes.data, POINTER(c_int))
-- 
2.43.0


From 78cc1cc3d7d9b876c9e51b0fab21aca82e807593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:55 +0000
Subject: [PATCH 45/46] fix: set_new_time_steps converts to contiguous doubles

---
 interfaces/acados_template/acados_template/acados_ocp_solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index cc4aca3..a0bbe01 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -689,6 +689,7 @@ class AcadosOcpSolver:
         if np.array_equal(self.ocp.solver_options.time_steps, new_time_steps):
             return
 
+        new_time_steps = np.ascontiguousarray(new_time_steps, dtype=np.float64)
         N = new_time_steps.size
         new_time_steps_data = cast(new_time_steps.ctypes.data, POINTER(c_double))
 
-- 
2.43.0


From ce203fa5651c75f82068a58aabcb67213499ef9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:55 +0000
Subject: [PATCH 46/46] fix: cost_get allocates y_ref as a vector

---
 interfaces/acados_template/acados_template/acados_ocp_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index a0bbe01..244da32 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -2088,7 +2088,7 @@ class AcadosOcpSolver:
             self.nlp_dims, self.nlp_out, stage_, field, dims_data)
 
         # vector-valued fields
-        if field_ in ['yref', 'zl', 'zu', 'Zl', 'Zu', 'scaling']:
+        if field_ in ['y_ref', 'yref', 'zl', 'zu', 'Zl', 'Zu', 'scaling']:
             dims = (dims_[0],)
         else:
             dims = tuple(dims_)
-- 
2.43.0

