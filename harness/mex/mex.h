// Stand-in for Octave's mex.h: as much of the MEX interface as a loader of scalar structures of real matrices needs.
#ifndef MEX_MOCK_H
#define MEX_MOCK_H
#include <stddef.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdint.h>
#include <string.h>
typedef struct mxArray_ mxArray;
typedef size_t mwSize; typedef size_t mwIndex; typedef unsigned char mxLogical; typedef char mxChar;
typedef enum { mxREAL = 0, mxCOMPLEX = 1 } mxComplexity;
typedef enum { mxUNKNOWN_CLASS, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT32_CLASS } mxClassID;
void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]);
const char *mexFunctionName(void);
int mexPrintf(const char *fmt, ...);
void mexErrMsgTxt(const char *s) __attribute__((noreturn));
void mexErrMsgIdAndTxt(const char *id, const char *fmt, ...) __attribute__((noreturn));
void mexWarnMsgTxt(const char *s);
void mexWarnMsgIdAndTxt(const char *id, const char *fmt, ...);
char *mxArrayToString(const mxArray *a);
int mxGetString(const mxArray *a, char *buf, mwSize n);
mxArray *mxCreateString(const char *s);
mxArray *mxCreateStructMatrix(mwSize m, mwSize n, int nf, const char **keys);
mxArray *mxCreateDoubleScalar(double v);
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity c);
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID id, mxComplexity c);
void mxSetFieldByNumber(mxArray *a, mwIndex i, int f, mxArray *v);
void mxSetField(mxArray *a, mwIndex i, const char *key, mxArray *v);
int mxAddField(mxArray *a, const char *key);
int mxGetFieldNumber(const mxArray *a, const char *key);
mxArray *mxGetField(const mxArray *a, mwIndex i, const char *key);
mxArray *mxGetFieldByNumber(const mxArray *a, mwIndex i, int f);
double *mxGetPr(const mxArray *a);
double *mxGetDoubles(const mxArray *a);
void *mxGetData(const mxArray *a);
double mxGetScalar(const mxArray *a);
size_t mxGetM(const mxArray *a); size_t mxGetN(const mxArray *a); size_t mxGetNumberOfElements(const mxArray *a);
int mxIsChar(const mxArray *a); int mxIsDouble(const mxArray *a); int mxIsStruct(const mxArray *a); int mxIsEmpty(const mxArray *a);
void mxDestroyArray(mxArray *a);
void *mxMalloc(size_t n); void *mxCalloc(size_t n, size_t s); void *mxRealloc(void *p, size_t n); void mxFree(void *p);
#endif
