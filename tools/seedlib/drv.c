/* Minimal driver of one codec, used by the demonstrations.
   drv dec "SPEC" SG y0 y1 ... -> prints "CODE BITS";  drv enc "SPEC" BITS -> prints n, k and the signs */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int cdc_init(char param_str[], void **cdc); int cdc_get_n(void *cdc); int cdc_get_k(void *cdc);
void cdc_set_sg(void *cdc, double sg); int enc_bpsk(void *cdc, int x[], double y[]); int dec_bpsk(void *cdc, double c[], int x[]);
#ifdef DEC_NEEDS_CSNRN
void cdc_set_csnrn(void *cdc, int n);
#endif
/* FAIL=n: the n-th allocation of the last call fails, its return code is printed first; memory left allocated is printed as well */
void *__real_malloc(size_t); void __real_free(void *); static int failat, nlive;
void *__wrap_malloc(size_t n) { void *p; if (failat && --failat == 0) return NULL; p = __real_malloc(n); nlive += p != NULL; return p; }
void __wrap_free(void *p) { nlive -= p != NULL; __real_free(p); }
static void arm(void) { char *e = getenv("FAIL"); if (e) failat = atoi(e); }
int main(int argc, char **argv) {
  char *p = malloc(strlen(argv[2]) + 2); void *c = NULL; int i;
  strcpy(p, argv[2]); for (i = 0; p[i]; i++) if (p[i] == ' ') p[i] = 1;
  if (p[i - 1] != 1) { p[i] = 1; p[i + 1] = 0; }
  if (!strcmp(argv[1], "init")) { int rc, l = nlive; arm(); rc = cdc_init(p, &c); failat = 0; if (!rc) cdc_close(c); printf("%d %d\n", rc, nlive - l); return 0; }
  if (cdc_init(p, &c) || !c) { printf("rejected\n"); return 0; }
  int n = cdc_get_n(c), k = cdc_get_k(c);
  int *x = calloc(k + 1, sizeof(int)); double *y = calloc(n + 1, sizeof(double));
  if (!strcmp(argv[1], "enc")) {
    for (i = 0; i < k; i++) x[i] = argv[3][i] - '0';
    arm(); int rc = enc_bpsk(c, x, y);
    if (getenv("FAIL")) printf("%d ", rc);
    printf("%d %d ", n, k); for (i = 0; i < n; i++) printf("%d", y[i] > 0);
  } else if (!strcmp(argv[1], "clean")) { /* encode, decode undistorted, compare */
    for (i = 0; i < k; i++) x[i] = argv[4][i] - '0';
    int *z = calloc(k + 1, sizeof(int));
    enc_bpsk(c, x, y); cdc_set_sg(c, atof(argv[3]));
    int rc = dec_bpsk(c, y, z);
    printf("%d %s", rc, memcmp(x, z, k * sizeof(int)) ? "different" : "same");
  } else {
    cdc_set_sg(c, atof(argv[3]));
#ifdef DEC_NEEDS_CSNRN
    cdc_set_csnrn(c, 0);
#endif
    for (i = 0; i < n && 4 + i < argc; i++) y[i] = atof(argv[4 + i]);
    arm(); int rc = dec_bpsk(c, y, x);
    if (getenv("FAIL") && rc) { printf("%d\n", rc); return 0; }
    printf("%d ", rc); for (i = 0; i < k; i++) printf("%d", x[i]);
  }
  printf("\n"); return 0;
}
