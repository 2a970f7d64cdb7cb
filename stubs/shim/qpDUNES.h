/* hand-written shim: only what acados' wrapper uses */
#ifndef SHIM_QPDUNES_H
#define SHIM_QPDUNES_H
#include <stdbool.h>
typedef double real_t; typedef int int_t; typedef unsigned int uint_t;
typedef int boolean_t;
#define QPDUNES_FALSE 0
#define QPDUNES_TRUE 1
typedef enum { QPDUNES_OK = 0, QPDUNES_SUCC_OPTIMAL_SOLUTION_FOUND, QPDUNES_SUCC_SUBOPTIMAL_TERMINATION, QPDUNES_ERR_STAGE_QP_INFEASIBLE, QPDUNES_ERR_STAGE_COUPLING_INFEASIBLE, QPDUNES_ERR_UNKNOWN_ERROR, QPDUNES_ERR_ITERATION_LIMIT_REACHED, QPDUNES_ERR_DIVISION_BY_ZERO, QPDUNES_ERR_INVALID_ARGUMENT } return_t;
enum { QPDUNES_LS_HOMOTOPY_GRID_SEARCH = 5, QPDUNES_LS_ACCELERATED_GRADIENT_BISECTION_LS = 7, QPDUNES_REG_LEVENBERG_MARQUARDT = 0 };
typedef struct { int maxIter, printLevel; double stationarityTolerance, equalityTolerance, activenessTolerance, regParam, newtonHessDiagRegTolerance, lineSearchReductionFactor, lineSearchMaxStepSize; int lsType, regType, maxNumLineSearchIterations, maxNumLineSearchRefinementIterations; double QPDUNES_INFTY; } qpOptions_t;
typedef struct { double *data; } z_vector_t;
typedef struct { int nV, nD; z_vector_t z, y, xVec; } interval_t;
typedef struct { int numIter; } log_t;
typedef struct { z_vector_t lambda; interval_t **intervals; qpOptions_t options; log_t log; int nX, nU; } qpData_t;
qpOptions_t qpDUNES_setupDefaultOptions(void);
#endif
