/* hand-written shim */
#ifndef SHIM_QORE_H
#define SHIM_QORE_H
typedef struct { int n; } QoreProblemDense;
int QPDenseSize(int nv, int nc, int nsmax);
#endif
