/* Scripted driver of the simulator core with a stand-in codec, used by the demonstrations.
   simd SPF COMMAND...   OUT = outcomes of the trials (cyclic), TSTEP = seconds per time() call.
   outcomes: o correct, b one wrong bit, B all bits wrong, e erasure, E erasure with a wrong bit, n decoder error, w nearest codeword */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include "interfaces/simul.h"
#define N 8
#define K 4

static int lastx[K]; static long trial; static int mlx, mlh; static long now = 1000; static double sgs[1000]; static int nsg;
int nlive_ok; int show; /* print every channel word */
time_t __wrap_time(time_t *t) { static int step = -1; if (step < 0) { char *s = getenv("TSTEP"); step = s ? atoi(s) : 0; } now += step; if (t) *t = now; return now; }
clock_t __wrap_clock(void) { static clock_t c; return c += CLOCKS_PER_SEC; }
void err_msg(char *s) { printf("err: %s\n", s); } void show_msg(char *s) { printf("msg: %s\n", s); }
void msg_printf(char *f, ...) {} void msg_flush() {}
static void en(int *x, double *y) { int i; for (i = 0; i < N; i++) y[i] = (i < K ? x[i] : x[i - K] ^ x[(i + 1) % K]) ? 1.0 : -1.0; }
int cdc_init(char *p, void **c) { *c = malloc(1); return 0; }
void cdc_close(void *c) { free(c); } int cdc_get_n(void *c) { return N; } int cdc_get_k(void *c) { return K; }
void cdc_set_sg(void *c, double sg) { printf("sg %.6f\n", sg); } void cdc_set_csnrn(void *c, int n) { printf("csnrn %d\n", n); }
int enc_bpsk(void *c, int *x, double *y) { memcpy(lastx, x, sizeof lastx); en(x, y); return 0; }
static double dist(int *x, double *c, int hard) { double y[N], d = 0; int i; en(x, y); for (i = 0; i < N; i++) { double v = hard ? (c[i] > 0 ? 1 : -1) : c[i]; d += (y[i] - v) * (y[i] - v); } return d; }
int dec_bpsk(void *c, double *y, int *x) {
  char *o = getenv("OUT"); int i, tx[K], rc = 0; if (!o) o = "ob";
  char a = o[trial++ % strlen(o)]; memcpy(tx, lastx, sizeof tx); memset(lastx, 0, sizeof lastx); memcpy(x, tx, sizeof tx);
  if (show) { for (i = 0; i < N; i++) printf("%.4f ", y[i]); printf("\n"); }
  if (a == 'b' || a == 'E') x[0] ^= 1; if (a == 'B') for (i = 0; i < K; i++) x[i] ^= 1;
  if (a == 'e' || a == 'E') rc = 1; if (a == 'n') rc = -1;
  if (a == 'w') { int w, z[K]; double b = 1e9; for (w = 0; w < 16; w++) { for (i = 0; i < K; i++) z[i] = w >> i & 1; if (dist(z, y, 0) < b) { b = dist(z, y, 0); memcpy(x, z, sizeof z); } } }
  if (!rc) { mlx += dist(tx, y, 0) > dist(x, y, 0); mlh += dist(tx, y, 1) > dist(x, y, 1); }
  return rc;
}
void *__real_malloc(size_t); void __real_free(void *); int failat, nlive; /* the failat-th allocation of the next command fails */
void *__wrap_malloc(size_t n) { void *p; if (failat && --failat == 0) return NULL; p = __real_malloc(n); nlive += p != NULL; return p; }
void __wrap_free(void *p) { nlive -= p != NULL; __real_free(p); }
int main(int argc, char **argv) {
  void *s = NULL; int i, rc; char b[100000];
  for (i = 2; i < argc; i++) {
    char *a = argv[i];
    if (!strncmp(a, "init", 4)) { sim_init_params p; memset(&p, 0, sizeof p); p.spf_name = argv[1]; p.dont_randomize = 1; p.ret_int = a[4] ? atoi(a + 4) : 1000000;
      srand(7); rc = sim_init(&p, &s); printf("init %d\n", rc); if (rc && !nlive_ok) return 3; }
    else if (!strcmp(a, "step")) printf("run %d\n", sim_run(s));
    else if (!strcmp(a, "run")) { while ((rc = sim_run(s)) > 0); printf("run %d\n", rc); }
    else if (!strcmp(a, "save")) printf("save %d\n", sim_save_res(s));
    else if (!strcmp(a, "state")) { sim_state_str(s, b); puts(b); }
    else if (!strcmp(a, "res")) { sim_cur_res_str(s, b); puts(b); }
    else if (!strcmp(a, "more")) sim_control(s, SIM_CTRL_CUR_MORE);
    else if (!strcmp(a, "less")) sim_control(s, SIM_CTRL_CUR_LESS);
    else if (!strcmp(a, "next")) sim_control(s, SIM_CTRL_CUR_NEXT);
    else if (!strncmp(a, "fail", 4)) nlive_ok = 1, failat = atoi(a + 4);
    else if (!strcmp(a, "live")) printf("live %d\n", nlive);
    else if (!strcmp(a, "show")) show = 1;
    else if (!strcmp(a, "ml")) printf("expected %d %d\n", mlx, mlh);
    else if (!strcmp(a, "close")) sim_close(s);
    fflush(stdout);
  }
  return 0;
}
