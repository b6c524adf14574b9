#include <stddef.h>
typedef struct mxArray { size_t n; double *d; char *s; int k; const char **keys; struct mxArray *f[16]; } mxArray;
#define mxREAL 0
mxArray *mxCreateDoubleMatrix(size_t, size_t, int); mxArray *mxCreateDoubleScalar(double); mxArray *mxCreateStructMatrix(size_t, size_t, int, const char **);
void mxSetFieldByNumber(mxArray *, size_t, int, mxArray *); double *mxGetPr(const mxArray *); char *mxArrayToString(const mxArray *); const char *mexFunctionName(void);
void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]);
