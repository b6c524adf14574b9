// The MEX host of the loader: arrays, messages and errors that do not return.
#include "mex/mex.h"
#include "mexmock.h"
#include <setjmp.h>
#include <stdarg.h>
struct mxArray_ { mxClassID cls; size_t m, n; double *d; char *s; int nf; char **keys; mxArray **f; mxArray *next; };
static mxArray *all; static void *mem[4096]; static int nmem; static jmp_buf jb; static char emsg[2000], omsg[20000];
static mxArray *mk(mxClassID c, size_t m, size_t n) { mxArray *a = (mxArray *)calloc(1, sizeof(*a)); a->cls = c; a->m = m; a->n = n; a->next = all; all = a; return a; }
const char *mexFunctionName(void) { return "loadsrf"; }
static int vo(const char *fmt, va_list ap) { size_t l = strlen(omsg); return vsnprintf(omsg + l, sizeof(omsg) - l, fmt, ap); }
int mexPrintf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vo(fmt, ap); va_end(ap); return r; }
void mexWarnMsgTxt(const char *s) { mexPrintf("%s\n", s); }
void mexWarnMsgIdAndTxt(const char *id, const char *fmt, ...) { (void)id; va_list ap; va_start(ap, fmt); vo(fmt, ap); va_end(ap); }
void mexErrMsgTxt(const char *s) { snprintf(emsg, sizeof(emsg), "%s", s ? s : ""); longjmp(jb, 1); }
void mexErrMsgIdAndTxt(const char *id, const char *fmt, ...) { (void)id; va_list ap; va_start(ap, fmt); vsnprintf(emsg, sizeof(emsg), fmt, ap); va_end(ap); longjmp(jb, 1); }
void *mxMalloc(size_t n) { void *p = malloc(n); if (nmem < 4096) mem[nmem++] = p; return p; }
void *mxCalloc(size_t n, size_t s) { void *p = mxMalloc(n * s); memset(p, 0, n * s); return p; }
void mxFree(void *p) { for (int i = 0; i < nmem; i++) if (mem[i] == p) mem[i] = mem[--nmem]; free(p); }
void *mxRealloc(void *p, size_t n) { for (int i = 0; i < nmem; i++) if (mem[i] == p) mem[i] = mem[--nmem]; p = realloc(p, n); if (nmem < 4096) mem[nmem++] = p; return p; }
char *mxArrayToString(const mxArray *a) { if (!a || a->cls != mxCHAR_CLASS) return NULL; char *p = (char *)mxMalloc(strlen(a->s) + 1); strcpy(p, a->s); return p; }
int mxGetString(const mxArray *a, char *b, mwSize n) { if (!a || a->cls != mxCHAR_CLASS || !n) return 1; snprintf(b, n, "%s", a->s); return strlen(a->s) >= n; }
mxArray *mxCreateString(const char *s) { mxArray *a = mk(mxCHAR_CLASS, 1, strlen(s)); a->s = strdup(s); return a; }
int mxAddField(mxArray *a, const char *key) { a->keys = (char **)realloc(a->keys, (a->nf + 1) * sizeof(char *)); a->f = (mxArray **)realloc(a->f, (a->nf + 1) * sizeof(mxArray *)); a->keys[a->nf] = strdup(key); a->f[a->nf] = NULL; return a->nf++; }
mxArray *mxCreateStructMatrix(mwSize m, mwSize n, int nf, const char **keys) { mxArray *a = mk(mxSTRUCT_CLASS, m, n); for (int i = 0; i < nf; i++) mxAddField(a, keys[i]); return a; }
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity c) { mxArray *a = mk(c == mxREAL ? mxDOUBLE_CLASS : mxUNKNOWN_CLASS, m, n); a->d = (double *)calloc(m * n + (m * n == 0), sizeof(double)); return a; }
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID id, mxComplexity c) { mxArray *a = mxCreateDoubleMatrix(m, n, c); if (id != mxDOUBLE_CLASS) a->cls = id; return a; }
mxArray *mxCreateDoubleScalar(double v) { mxArray *a = mxCreateDoubleMatrix(1, 1, mxREAL); a->d[0] = v; return a; }
void mxSetFieldByNumber(mxArray *a, mwIndex i, int f, mxArray *v) { if (!a || a->cls != mxSTRUCT_CLASS || i != 0 || f < 0 || f >= a->nf) { snprintf(emsg, sizeof(emsg), "mxSetFieldByNumber: no field %d", f); longjmp(jb, 2); } a->f[f] = v; }
int mxGetFieldNumber(const mxArray *a, const char *key) { for (int i = 0; i < a->nf; i++) if (!strcmp(a->keys[i], key)) return i; return -1; }
void mxSetField(mxArray *a, mwIndex i, const char *key, mxArray *v) { mxSetFieldByNumber(a, i, mxGetFieldNumber(a, key), v); }
mxArray *mxGetFieldByNumber(const mxArray *a, mwIndex i, int f) { return i == 0 && f >= 0 && f < a->nf ? a->f[f] : NULL; }
mxArray *mxGetField(const mxArray *a, mwIndex i, const char *key) { return mxGetFieldByNumber(a, i, mxGetFieldNumber(a, key)); }
double *mxGetPr(const mxArray *a) { return a->d; }
double *mxGetDoubles(const mxArray *a) { return a->d; }
void *mxGetData(const mxArray *a) { return a->d; }
double mxGetScalar(const mxArray *a) { return a->d[0]; }
size_t mxGetM(const mxArray *a) { return a->m; }
size_t mxGetN(const mxArray *a) { return a->n; }
size_t mxGetNumberOfElements(const mxArray *a) { return a->m * a->n; }
int mxIsChar(const mxArray *a) { return a->cls == mxCHAR_CLASS; }
int mxIsDouble(const mxArray *a) { return a->cls == mxDOUBLE_CLASS; }
int mxIsStruct(const mxArray *a) { return a->cls == mxSTRUCT_CLASS; }
int mxIsEmpty(const mxArray *a) { return a->m * a->n == 0; }
void mxDestroyArray(mxArray *a) { (void)a; }
// 0: a structure was returned, 1: an error was raised, 2: returned without structure, 3: wrong use of the interface, 4: returned something else
int loader_run(int nrhs, int isnum, const char *file, int nlhs, lr_t *o) {
  mxArray *l[2] = { NULL, NULL }; const mxArray *r[2]; int res, i;
  memset(o, 0, sizeof(*o)); emsg[0] = omsg[0] = 0;
  r[0] = isnum ? mxCreateDoubleScalar(5) : mxCreateString(file); r[1] = mxCreateString("x");
  int j = setjmp(jb);
  if (j == 0) { mexFunction(nlhs, l, nrhs, r); res = l[0] == NULL ? 2 : l[0]->cls == mxSTRUCT_CLASS && l[0]->m == 1 && l[0]->n == 1 ? 0 : 4; }
  else res = j == 1 ? 1 : 3;
  if (res == 0) { o->nf = l[0]->nf; for (i = 0; i < o->nf && i < 20; i++) {
    mxArray *f = l[0]->f[i]; snprintf(o->f[i].key, sizeof(o->f[i].key), "%s", l[0]->keys[i]);
    if (!f || f->cls != mxDOUBLE_CLASS || f->m * f->n > 60) { o->f[i].m = -1; continue; }
    o->f[i].m = (int)f->m; o->f[i].n = (int)f->n; memcpy(o->f[i].v, f->d, f->m * f->n * sizeof(double)); } }
  snprintf(o->emsg, sizeof(o->emsg), "%.400s", emsg); snprintf(o->omsg, sizeof(o->omsg), "%.400s", omsg);
  while (all) { mxArray *a = all; all = a->next; for (i = 0; i < a->nf; i++) free(a->keys[i]); free(a->keys); free(a->f); free(a->d); free(a->s); free(a); }
  while (nmem) free(mem[--nmem]);
  return res;
}
