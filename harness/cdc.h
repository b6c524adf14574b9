// Codec under test: prototypes and a guarded driver around it.
#ifndef CDC_H
#define CDC_H
#include "mc.h"
#define DEC_NEEDS_SIGMA
#ifdef CODEC_GLP
#define DEC_NEEDS_CSNRN
#endif
int cdc_init(char param_str[], void **cdc);
int cdc_get_n(void *cdc);
int cdc_get_k(void *cdc);
#ifdef CODEC_GLP
void cdc_set_csnrn(void *cdc, int csnrn);
#endif
void cdc_set_sg(void *cdc, double noise_sg);
int enc_bpsk(void *cdc, int x[], double y[]);
int dec_bpsk(void *cdc, double c_out[], int xd[]);
void cdc_close(void *cdc);

// Build a parameter string: tokens given separated by blanks become \1 terminated.
static char *cdc_params(char *dst, const char *src) {
  char *d = dst;
  int in = 0;
  for (; *src; src++) {
    if (*src == ' ') { if (in) *d++ = 1; in = 0; }
    else { *d++ = *src; in = 1; }
  }
  if (in) *d++ = 1;
  *d = 0;
  return dst;
}
static void *cdc_open(const char *spec) {
  size_t l = strlen(spec);
  char *s = (char *)malloc(l + 3), *t;
  void *cdc = NULL;
  cdc_params(s, spec);
  t = strdup(s);
  mc.trans++;
  int rc = cdc_init(t, &cdc);
  if (strcmp(s, t)) mc_fail("init-modifies-params", "cdc_init changed its parameter string for '%s'", spec);
  free(s); free(t);
  if (rc != 0) return NULL;
  return cdc;
}
// Silence the code's own messages (stdout) while exploring.
static void mc_quiet(void) {
  if (!freopen("/dev/null", "w", stdout)) exit(3);
}
static const char *bits2s(char *b, const int *x, int n) {
  int i;
  for (i = 0; i < n; i++) b[i] = x[i] == 0 ? '0' : x[i] == 1 ? '1' : '?';
  b[n] = 0; return b;
}
#endif
