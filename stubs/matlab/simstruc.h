/* minimal declarations of the Simulink S-function API used by the generated wrappers (analysis only, never linked) */
#ifndef STUB_SIMSTRUC_H
#define STUB_SIMSTRUC_H
#include <stddef.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
typedef struct SimStruct_tag SimStruct;
typedef double real_T;
typedef int int_T;
typedef const real_T *const *InputRealPtrsType;
typedef struct { int numDims; int *dims; int width; } DimsInfo_T;
void ssSetNumContStates(SimStruct *, int);
void ssSetNumDiscStates(SimStruct *, int);
int ssSetNumInputPorts(SimStruct *, int);
int ssSetNumOutputPorts(SimStruct *, int);
int ssSetInputPortVectorDimension(SimStruct *, int, int);
int ssSetOutputPortVectorDimension(SimStruct *, int, int);
int ssSetInputPortDimensionInfo(SimStruct *, int, const DimsInfo_T *);
int ssSetOutputPortDimensionInfo(SimStruct *, int, const DimsInfo_T *);
void ssSetInputPortDirectFeedThrough(SimStruct *, int, int);
void ssSetInputPortRequiredContiguous(SimStruct *, int, int);
int ssGetInputPortWidth(SimStruct *, int);
int ssGetInputPortConnected(SimStruct *, int);
InputRealPtrsType ssGetInputPortRealSignalPtrs(SimStruct *, int);
const real_T *ssGetInputPortRealSignal(SimStruct *, int);
real_T *ssGetOutputPortRealSignal(SimStruct *, int);
void ssSetNumSampleTimes(SimStruct *, int);
void ssSetSampleTime(SimStruct *, int, real_T);
void ssSetOffsetTime(SimStruct *, int, real_T);
void ssSetErrorStatus(SimStruct *, const char *);
void ssSetUserData(SimStruct *, void *);
void *ssGetUserData(SimStruct *);
int ssPrintf(const char *, ...);
#define DYNAMICALLY_SIZED (-1)
#define CONTINUOUS_SAMPLE_TIME 0.0
#define INHERITED_SAMPLE_TIME (-1.0)
#define UNUSED_ARG(x) (void)(x)
#ifdef S_FUNCTION_NAME
static void mdlInitializeSizes(SimStruct *);
static void mdlInitializeSampleTimes(SimStruct *);
static void mdlOutputs(SimStruct *, int_T);
static void mdlTerminate(SimStruct *);
#endif
#endif
