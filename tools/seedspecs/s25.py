id='omp-merged-collect'; prop='C11'
needs='more than one thread, and a thread that reaches the adjoint of the previous stage before the thread of that stage has computed it'
breaks='the stage-wise evaluations are collected in the same parallel loop that computes them, so stage i adds the adjoint of stage i-1 to the Lagrange gradient while another thread may not have computed it yet; the stationarity residual depends on the schedule'
edits=[('acados/ocp_nlp/ocp_nlp_common.c','''        config->constraints[i]->update_qp_matrices(config->constraints[i], dims->constraints[i],
                in->constraints[i], opts->constraints[i], mem->constraints[i], work->constraints[i]);
    }

    /* collect stage-wise evaluations */
#if defined(ACADOS_WITH_OPENMP)
    #pragma omp parallel for
#endif
    for (int i=0; i <= N; i++)
    {
        // nlp mem: cost_grad''','''        config->constraints[i]->update_qp_matrices(config->constraints[i], dims->constraints[i],
                in->constraints[i], opts->constraints[i], mem->constraints[i], work->constraints[i]);

        /* collect stage-wise evaluations */
        // nlp mem: cost_grad''')]
lib=True
files={'d.c':r'''#define _GNU_SOURCE
#include <unistd.h>
#include <omp.h>
#include "ocp_demo.h"
#include "acados/ocp_nlp/ocp_nlp_sqp.h"
static void slow(void) { usleep(60000 * (omp_get_num_threads() - 1 - omp_get_thread_num())); }
static double run(int nt)
{
    demo_ocp a; demo_problem(&a, demo_plan(SQP)); int one = 1;
    ocp_nlp_solver_opts_set(a.config, a.opts, "max_iter", &one);
    ocp_nlp_solver_opts_set(a.config, a.opts, "num_threads", &nt);
    demo_create(&a);
    double pi[2] = {1.0, 2.0};
    for (int i = 0; i < a.N; i++) { double q[2] = {1.0 + i, 2.0 - i}; ocp_nlp_out_set(a.config, a.dims, a.out, a.in, i, "pi", q); }
    demo_hook = slow;
    ocp_nlp_solve(a.s, a.in, a.out);
    ocp_nlp_memory *m = ((ocp_nlp_sqp_memory *) a.s->mem)->nlp_mem;
    double h = 0;
    for (int i = 0; i <= a.N; i++)
        for (int k = 0; k < a.dims->nx[i] + a.dims->nu[i]; k++) h = 1.3 * h + BLASFEO_DVECEL(m->dyn_adj + i, k);
    return h;
}
int main(void)
{
    double a = run(1), b = run(6);
    printf("adjoint checksum: %.15g with one thread, %.15g with six\n", a, b);
    return !(a == b);
}
'''}
demo=r'''. "$(dirname "$0")/cdemo.sh"
build_lib && build_prog "$HERE/d.c" || exit 9
"$W/prog"
'''
