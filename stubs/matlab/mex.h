/* minimal declarations of the MATLAB API used by the generated wrappers (analysis only, never linked) */
#ifndef STUB_MEX_H
#define STUB_MEX_H
#include <stddef.h>
#include <stdbool.h>
#include <stdint.h>
typedef struct mxArray_tag mxArray;
typedef size_t mwSize;
typedef size_t mwIndex;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
typedef enum { mxUNKNOWN_CLASS, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxDOUBLE_CLASS = 6, mxINT8_CLASS = 8, mxINT32_CLASS = 12, mxINT64_CLASS = 14 } mxClassID;
double *mxGetPr(const mxArray *);
void *mxGetData(const mxArray *);
double mxGetScalar(const mxArray *);
char *mxArrayToString(const mxArray *);
mxArray *mxGetField(const mxArray *, mwIndex, const char *);
void mxSetField(mxArray *, mwIndex, const char *, mxArray *);
void mxSetCell(mxArray *, mwIndex, mxArray *);
mxArray *mxCreateNumericMatrix(mwSize, mwSize, mxClassID, mxComplexity);
mxArray *mxCreateDoubleMatrix(mwSize, mwSize, mxComplexity);
mxArray *mxCreateStructMatrix(mwSize, mwSize, int, const char **);
mxArray *mxCreateCellMatrix(mwSize, mwSize);
size_t mxGetM(const mxArray *);
size_t mxGetN(const mxArray *);
size_t mxGetNumberOfElements(const mxArray *);
void mxFree(void *);
void *mxMalloc(size_t);
_Noreturn void mexErrMsgTxt(const char *);
int mexPrintf(const char *, ...);
#endif
