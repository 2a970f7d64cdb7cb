/* hand-written shim: only what acados' wrapper uses */
#ifndef SHIM_QPOASES_H
#define SHIM_QPOASES_H
typedef double real_t; typedef int int_t; typedef int boolean;
typedef enum { SUCCESSFUL_RETURN = 0, RET_MAX_NWSR_REACHED = 64, RET_INIT_FAILED_INFEASIBILITY = 37, RET_INIT_FAILED_UNBOUNDEDNESS = 38, RET_QP_INFEASIBLE = 61, RET_QP_UNBOUNDED = 62 } returnValue;
typedef enum { PL_DEBUG_ITER = -2, PL_TABULAR, PL_NONE, PL_LOW, PL_MEDIUM, PL_HIGH } PrintLevel;
typedef enum { HST_ZERO, HST_IDENTITY, HST_POSDEF } HessianType;
typedef enum { ST_LOWER = -1, ST_INACTIVE, ST_UPPER } SubjectToStatus;
#define QPOASES_INFTY 1.0e20
typedef struct { int n; } Bounds; typedef struct { int n; } Constraints;
typedef struct { double terminationTolerance; int a; } Options;
typedef struct QProblemB { Bounds *bounds; Options options; int tau; } QProblemB;
typedef struct QProblem { Bounds *bounds; Constraints *constraints; Options options; int tau; } QProblem;
void Options_setToMPC(Options *o); void Options_setToDefault(Options *o);
unsigned int QProblem_calculateMemorySize(unsigned int nV, unsigned int nC);
char *QProblem_assignMemory(unsigned int nV, unsigned int nC, QProblem **mem, void *raw);
unsigned int QProblemB_calculateMemorySize(unsigned int nV);
char *QProblemB_assignMemory(unsigned int nV, QProblemB **mem, void *raw);
#endif
