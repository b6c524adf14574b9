/* multi N SG SPEC...: opens an instance per SPEC, decodes N noisy words with each in turn; prints a checksum of the decoded words */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int cdc_init(char param_str[], void **cdc); int cdc_get_n(void *cdc); int cdc_get_k(void *cdc); void cdc_close(void *);
void cdc_set_sg(void *cdc, double sg); int enc_bpsk(void *cdc, int x[], double y[]); int dec_bpsk(void *cdc, double c[], int x[]);
#ifdef DEC_NEEDS_CSNRN
void cdc_set_csnrn(void *cdc, int n);
#endif
static unsigned s = 12345; static unsigned rnd(void) { s = s * 1103515245u + 12345u; return s >> 12; }
int main(int argc, char **argv) {
  int N = atoi(argv[1]), ni = argc - 3, i, j, t; double sg = atof(argv[2]); void *c[10]; unsigned long h = 7;
  for (i = 0; i < ni; i++) {
    char *p = malloc(strlen(argv[3 + i]) + 2); strcpy(p, argv[3 + i]); for (j = 0; p[j]; j++) if (p[j] == ' ') p[j] = 1;
    p[j] = 1; p[j + 1] = 0;
    if (cdc_init(p, &c[i])) { puts("rejected"); return 0; }
    cdc_set_sg(c[i], sg);
#ifdef DEC_NEEDS_CSNRN
    cdc_set_csnrn(c[i], 0);
#endif
    free(p);
  }
  for (t = 0; t < N; t++) for (i = 0; i < ni; i++) {
    int n = cdc_get_n(c[i]), k = cdc_get_k(c[i]), *x = calloc(k, sizeof(int)); double *y = calloc(n, sizeof(double));
    for (j = 0; j < k; j++) x[j] = rnd() & 1;
    enc_bpsk(c[i], x, y);
    for (j = 0; j < n; j++) { double e = 0; int q; for (q = 0; q < 12; q++) e += (rnd() % 100003) / 100003.0; y[j] += (e - 6) * sg; }
    h = h * 1000003u + (unsigned)dec_bpsk(c[i], y, x);
    for (j = 0; j < k; j++) h = h * 31 + x[j];
    free(x); free(y);
  }
  for (i = 0; i < ni; i++) cdc_close(c[i]);
  printf("%lx\n", h & 0xffffffff); return 0;
}
