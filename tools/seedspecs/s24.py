id='omp-cost-work-share'; prop='C11'
needs='a build with OpenMP and the default workspace reuse: the cost module of the terminal stage and the constraint module of the first stage run in different threads'
breaks='in the parallel workspace layout the terminal cost module and the first constraint module get the same scratch memory, so two threads overwrite the intermediate results of each other'
edits=[('acados/ocp_nlp/ocp_nlp_common.c','''        // cost
        for (int i = 0; i <= N; i++)
        {
            work->cost[i] = c_ptr;
            c_ptr += cost[i]->workspace_calculate_size(cost[i], dims->cost[i], opts->cost[i]);
        }

        // constraints
        for (int i = 0; i <= N; i++)
        {
            work->constraints[i] = c_ptr;
            c_ptr += constraints[i]->workspace_calculate_size(constraints[i], dims->constraints[i], opts->constraints[i]);
        }
#else''','''        // cost
        for (int i = 0; i <= N; i++)
        {
            work->cost[i] = c_ptr;
            if (i < N)
                c_ptr += cost[i]->workspace_calculate_size(cost[i], dims->cost[i], opts->cost[i]);
        }

        // constraints
        for (int i = 0; i <= N; i++)
        {
            work->constraints[i] = c_ptr;
            c_ptr += constraints[i]->workspace_calculate_size(constraints[i], dims->constraints[i], opts->constraints[i]);
        }
#else''')]
lib=True
files={'d.c':r'''#include "ocp_demo.h"
#include "acados/ocp_nlp/ocp_nlp_sqp.h"
int main(void)
{
    demo_ocp a; demo_problem(&a, demo_plan(SQP)); demo_create(&a);
    ocp_nlp_workspace *w = ((ocp_nlp_sqp_workspace *) a.s->work)->nlp_work;
    int N = a.N, bad = 0;
    void *p[64]; int st[64], n = 0;
    for (int i = 0; i < N; i++) p[n] = w->dynamics[i], st[n++] = i;
    for (int i = 0; i <= N; i++) p[n] = w->cost[i], st[n++] = i;
    for (int i = 0; i <= N; i++) p[n] = w->constraints[i], st[n++] = i;
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++)
        if (p[i] == p[j] && st[i] != st[j]) { printf("stages %d and %d share scratch memory\n", st[i], st[j]); bad = 1; }
    return bad;
}
'''}
demo=r'''. "$(dirname "$0")/cdemo.sh"
build_lib && build_prog "$HERE/d.c" || exit 9
"$W/prog"
'''
