/* hand-written shim: only what acados' wrapper uses */
#ifndef SHIM_CLARABEL_H
#define SHIM_CLARABEL_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
typedef double ClarabelFloat;
typedef struct { size_t m, n; const uintptr_t *colptr; const uintptr_t *rowval; const double *nzval; } ClarabelCscMatrix;
typedef struct { uint32_t max_iter; double time_limit; bool verbose; double max_step_fraction; double tol_gap_abs, tol_gap_rel, tol_feas, tol_infeas_abs, tol_infeas_rel, tol_ktratio; bool presolve_enable; } ClarabelDefaultSettings;
typedef enum { ClarabelUnsolved, ClarabelSolved, ClarabelPrimalInfeasible, ClarabelDualInfeasible, ClarabelAlmostSolved, ClarabelAlmostPrimalInfeasible, ClarabelAlmostDualInfeasible, ClarabelMaxIterations, ClarabelMaxTime, ClarabelNumericalError, ClarabelInsufficientProgress } ClarabelSolverStatus;
typedef struct { double *x; size_t x_length; double *z; size_t z_length; double *s; size_t s_length; ClarabelSolverStatus status; double obj_val; double solve_time; uint32_t iterations; double r_prim, r_dual; } ClarabelDefaultSolution_f64;
typedef ClarabelDefaultSolution_f64 ClarabelDefaultSolution;
typedef struct { double mu; uint32_t iterations; double solve_time; ClarabelSolverStatus status; } ClarabelDefaultInfo;
typedef struct ClarabelDefaultSolver ClarabelDefaultSolver;
typedef struct { int tag; size_t n; } ClarabelSupportedConeT;
ClarabelSupportedConeT ClarabelZeroConeT(size_t n);
ClarabelSupportedConeT ClarabelNonnegativeConeT(size_t n);
void clarabel_CscMatrix_init(ClarabelCscMatrix *p, size_t m, size_t n, const uintptr_t *c, const uintptr_t *r, const double *v);
ClarabelDefaultSettings clarabel_DefaultSettings_default(void);
ClarabelDefaultSolver *clarabel_DefaultSolver_new(const ClarabelCscMatrix *P, const double *q, const ClarabelCscMatrix *A, const double *b, size_t n_cones, const ClarabelSupportedConeT *cones, const ClarabelDefaultSettings *s);
void clarabel_DefaultSolver_free(ClarabelDefaultSolver *s);
void clarabel_DefaultSolver_solve(ClarabelDefaultSolver *s);
ClarabelDefaultSolution clarabel_DefaultSolver_solution(ClarabelDefaultSolver *s);
ClarabelDefaultInfo clarabel_DefaultSolver_info(ClarabelDefaultSolver *s);
void clarabel_DefaultSolver_update_P(ClarabelDefaultSolver *s, const double *v, size_t n);
void clarabel_DefaultSolver_update_A(ClarabelDefaultSolver *s, const double *v, size_t n);
void clarabel_DefaultSolver_update_q(ClarabelDefaultSolver *s, const double *v, size_t n);
void clarabel_DefaultSolver_update_b(ClarabelDefaultSolver *s, const double *v, size_t n);
#endif
