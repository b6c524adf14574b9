/* Calls the loader with a minimal stand-in for the MEX interface and prints the fields. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include "mex.h"
mxArray *mxCreateDoubleMatrix(size_t m, size_t n, int c) { mxArray *a = calloc(1, sizeof *a); a->n = m * n; a->d = calloc(m * n + 1, sizeof(double)); return a; }
mxArray *mxCreateDoubleScalar(double v) { mxArray *a = mxCreateDoubleMatrix(1, 1, 0); a->d[0] = v; return a; }
mxArray *mxCreateStructMatrix(size_t m, size_t n, int k, const char **keys) { mxArray *a = calloc(1, sizeof *a); a->k = k; a->keys = keys; return a; }
void mxSetFieldByNumber(mxArray *a, size_t i, int f, mxArray *v) { a->f[f] = v; }
double *mxGetPr(const mxArray *a) { return a->d; }
char *mxArrayToString(const mxArray *a) { return strdup(a->s); }
const char *mexFunctionName(void) { return "loadsrf"; }
void err_msg(char *s) { printf("err: %s\n", s); } void show_msg(char *s) { puts(s); } void msg_printf(char *f, ...) {} void msg_flush() {}
int main(int argc, char **argv) {
  mxArray in = {0}, *r = NULL; const mxArray *p = &in; int i, j; static const char *nm[] = {"n", "k", "EbNo", "BER", "WER", "ERR", "MLER"};
  in.s = argv[1]; mexFunction(1, &r, 1, &p);
  if (!r) { puts("none"); return 0; }
  for (i = 0; i < 7; i++) { printf("%s", nm[i]); for (j = 0; j < r->f[i]->n; j++) printf(" %.6g", r->f[i]->d[j]); puts(""); }
  return 0;
}
