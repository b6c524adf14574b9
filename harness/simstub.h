// Simulator under test, linked with a scripted codec: the real sim_bg.c, main_txt.c, spf_par.c and ui_txt.c run in
// this process; time(), clock() and rand() are scripted (--wrap), trials are answered by the harness.
#ifndef SIMSTUB_H
#define SIMSTUB_H
#include "mc.h"
#include <time.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/time.h>
typedef struct { char *spf_name; int ret_int; int dont_randomize; } sim_init_params_;
#include "interfaces/simul.h"
int ecclab_main(int argc, char **argv);

// ----- scripted environment
#ifndef ST_N
#define ST_N 1024
#endif
static struct {
  int n, k, init_fail, open_cnt, trial;      // trial: number of decoder calls so far
  int last_x[ST_N], last_csnrn, nsg; double sg;
  char *params;                              // last parameter string given to the codec
  time_t now; int tick; long clock; int srand_calls; unsigned srand_val;
  double cout_[ST_N]; int sent[ST_N];            // what the last decoder call saw / what was sent
  int enc_calls, enc_fail_at, enc_failed, draws; // enc_fail_at: the encoder fails in this call (1, 2, ...); draws: since the last decoder call
  int rndcw; double rate;                        // rate: fixed code rate of the noise level, 0: k / n
} ST;
static int (*st_dec)(const double *y, int *xd) = NULL;   // answers a decoder call
static int (*st_rand)(void) = NULL;
static void (*st_sg)(double sg) = NULL;
static void (*st_clock)(void) = NULL;
int cdc_init(char p[], void **c) {
  free(ST.params); ST.params = strdup(p);
  *c = NULL;
  if (ST.init_fail) return -1;
  int *h = (int *)malloc(sizeof(int)); *h = 77; *c = h; ST.open_cnt++;
  return 0;
}
int cdc_get_n(void *c) { return *(int *)c == 77 ? ST.n : -1; }
int cdc_get_k(void *c) { return *(int *)c == 77 ? ST.k : -1; }
void cdc_set_csnrn(void *c, int v) { if (*(int *)c != 77) abort(); ST.last_csnrn = v; }
void cdc_set_sg(void *c, double v) { if (*(int *)c != 77) abort(); ST.sg = v; ST.nsg++; if (st_sg) st_sg(v); }
static void st_code(const int *x, int *cw) {
  if (ST.k > 20) { for (int i = 0; i < ST.n; i++) cw[i] = x[i % ST.k]; return; }
  for (int i = 0; i < ST.n; i++) { cw[i] = 0; for (int j = 0; j < ST.k; j++) if (((i % ((1 << ST.k) - 1)) + 1) >> j & 1) cw[i] ^= x[j]; }
}
int enc_bpsk(void *c, int x[], double y[]) {
  int cw[ST_N]; if (*(int *)c != 77) abort();
  for (int j = 0; j < ST.k; j++) { if (x[j] != 0 && x[j] != 1) mc_fail("enc-input", "the encoder got %d as an information bit", x[j]); ST.last_x[j] = x[j]; }
  if (++ST.enc_calls == ST.enc_fail_at) { ST.enc_failed = 1 + (ST.trial > 0 && !ST.draws); return -1; }
  st_code(x, cw);
  for (int i = 0; i < ST.n; i++) y[i] = cw[i] ? 1.0 : -1.0;
  return 0;
}
int dec_bpsk(void *c, double y[], int xd[]) {
  if (*(int *)c != 77) abort();
  for (int j = 0; j < ST.k; j++) ST.sent[j] = ST.rndcw ? ST.last_x[j] : 0;
  memcpy(ST.cout_, y, ST.n * sizeof(double));
  int rc = st_dec(y, xd);
  ST.trial++; ST.draws = 0; mc.trans++; mc_tick();
  return rc;
}
void cdc_close(void *c) { if (!c) return; if (*(int *)c != 77) abort(); *(int *)c = 0; free(c); ST.open_cnt--; }
time_t __wrap_time(time_t *t) { ST.now += ST.tick; if (t) *t = ST.now; return ST.now; }
clock_t __wrap_clock(void) { ST.clock += CLOCKS_PER_SEC / 10; if (st_clock) st_clock(); return ST.clock; }
int __wrap_clock_gettime(clockid_t id, struct timespec *ts) { ST.now += ST.tick; ts->tv_sec = ST.now; ts->tv_nsec = 0; return 0; }
int __wrap_gettimeofday(struct timeval *tv, void *z) { ST.now += ST.tick; tv->tv_sec = ST.now; tv->tv_usec = 0; return 0; }
int __wrap_rand(void) { ST.draws++; return st_rand(); }
void __wrap_srand(unsigned s) { ST.srand_calls++; ST.srand_val = s; }
static void st_reset(int n, int k) {
  free(ST.params); memset(&ST, 0, sizeof(ST));
  ST.n = n; ST.k = k; ST.now = 1000000; st_clock = NULL; st_sg = NULL;
}
static int st_rand_hash(void) { static uint64_t c; return (int)(mc_mix(++c) >> 33); }

// The point of the list simulated now, by the noise level set.
static int st_point(const double *snr, int n) {
  int i, b = -1; double R = ST.rate > 0 ? ST.rate : (double)ST.k / ST.n;
  for (i = 0; i < n; i++) if (fabs(ST.sg * sqrt(2 * R * pow(10, snr[i] / 10)) - 1) < 1e-6) b = i;
  return b;
}
// ----- standard output of the program goes to a file that can be read and reset
static int so_fd = -1;
static void so_init(void) {
  fflush(stdout);
  so_fd = open("stdout.txt", O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (so_fd < 0 || dup2(so_fd, 1) < 0) exit(3);
}
static void so_reset(void) { fflush(stdout); if (ftruncate(so_fd, 0)) exit(3); lseek(so_fd, 0, SEEK_SET); lseek(1, 0, SEEK_SET); }
static char *so_get(void) { // static buffer
  static char buf[300000];
  fflush(stdout);
  ssize_t r = pread(so_fd, buf, sizeof(buf) - 1, 0); if (r < 0) r = 0; buf[r] = 0; return buf;
}

// ----- files
static void wr_file(const char *fn, const char *fmt, ...) {
  FILE *f = fopen(fn, "wb"); if (!f) { fprintf(stderr, "cannot write %s\n", fn); exit(3); }
  va_list ap; va_start(ap, fmt); vfprintf(f, fmt, ap); va_end(ap);
  fclose(f);
}
static char *rd_file(const char *fn) { // malloced, NULL when there is none
  FILE *f = fopen(fn, "rb"); if (!f) return NULL;
  char *b = (char *)malloc(300000); size_t n = fread(b, 1, 299999, f); b[n] = 0; fclose(f); return b;
}
static int file_exists(const char *fn) { struct stat s; return stat(fn, &s) == 0; }

// ----- independent reader of a results file
#define SRF_MAX 60
enum { R_TRN, R_ENB, R_ENBL, R_ER, R_MLT, R_MLE, R_WER, R_ERR, R_MLER, R_NUM };
static const char *RKEY[R_NUM] = { "tr_num", "en_bit", "en_bl", "erasures_num", "ml_tr_num", "enml_bl", "WER", "ERR", "MLER" };
typedef struct { int n, k, rows, cols[R_NUM], trows; double snr[SRF_MAX]; char snrs[SRF_MAX][32]; double v[R_NUM][SRF_MAX]; double t[SRF_MAX][5]; } srf_t;
static char srf_err[300];
static int srf_bad(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(srf_err, sizeof(srf_err), fmt, ap); va_end(ap); return 0; }
static int srf_parse(const char *txt, srf_t *s) {
  memset(s, 0, sizeof(*s));
  char *b = strdup(txt), *p = b, *tok[4000]; int nt = 0, i, j;
  // comments: the table
  for (char *l = strtok(b, "\n"); l; l = strtok(NULL, "\n")) {
    char *c = strchr(l, '%');
    if (!c) continue;
    double t[5];
    if (sscanf(c + 1, "%lf %lf %lf %lf %lf", t, t + 1, t + 2, t + 3, t + 4) == 5 && s->trows < SRF_MAX) memcpy(s->t[s->trows++], t, sizeof(t));
  }
  free(b); b = p = strdup(txt);
  int com = 0;
  for (char *c = p; *c; c++) { if (*c == '%') com = 1; if (*c == '\n') com = 0; if (com) *c = ' '; }
  for (char *t = strtok(p, " \t\r\n"); t && nt < 4000; t = strtok(NULL, " \t\r\n")) tok[nt++] = t;
  int ok = 1;
  for (i = 0; i < nt && ok;) {
    if (i + 1 >= nt) { ok = srf_bad("key '%s' without value", tok[i]); break; }
    if (strcmp(tok[i + 1], "{")) {
      if (!strcmp(tok[i], "code_n")) s->n = atoi(tok[i + 1]);
      else if (!strcmp(tok[i], "code_k")) s->k = atoi(tok[i + 1]);
      i += 2; continue;
    }
    int st = i + 2; for (j = st; j < nt && strcmp(tok[j], "}"); j++);
    if (j >= nt) { ok = srf_bad("group '%s' is not closed", tok[i]); break; }
    if (j - st > SRF_MAX - 1) { ok = srf_bad("%d values in group '%s'", j - st, tok[i]); break; }
    if (!strcmp(tok[i], "SNR")) { s->rows = j - st; for (int q = st; q < j; q++) { char *e; s->snr[q - st] = strtod(tok[q], &e); if (*e) ok = srf_bad("SNR '%s'", tok[q]); snprintf(s->snrs[q - st], 32, "%.31s", tok[q]); } }
    for (int r = 0; r < R_NUM; r++) if (!strcmp(tok[i], RKEY[r])) {
      if (s->cols[r]) ok = srf_bad("group '%s' twice", tok[i]);
      s->cols[r] = j - st;
      for (int q = st; q < j; q++) { char *e; s->v[r][q - st] = strtod(tok[q], &e); if (*e) ok = srf_bad("value '%s' in '%s'", tok[q], tok[i]); }
    }
    i = j + 1;
  }
  if (ok) for (int r = 0; r < R_NUM; r++) if (s->cols[r] != s->rows) ok = srf_bad("%d values of %s for %d SNR values", s->cols[r], RKEY[r], s->rows);
  free(b);
  return ok;
}
static int near_(double a, double b) { return fabs(a - b) <= 6e-4 * fabs(b) + 1e-300; }
// Rates of a parsed file agree with its counters. Returns 0 and a message otherwise.
static int srf_rates(const srf_t *s) {
  for (int i = 0; i < s->rows; i++) {
    double t = s->v[R_TRN][i], mt = s->v[R_MLT][i], ml = mt > 0 ? s->v[R_MLE][i] / mt : 0;
    if (t < 1) return srf_bad("row %d without trials", i);
    if (!near_(s->v[R_WER][i], s->v[R_ENBL][i] / t)) return srf_bad("WER %g for %g errors in %g trials", s->v[R_WER][i], s->v[R_ENBL][i], t);
    if (!near_(s->v[R_ERR][i], s->v[R_ER][i] / t)) return srf_bad("ERR %g for %g erasures in %g trials", s->v[R_ERR][i], s->v[R_ER][i], t);
    if (!near_(s->v[R_MLER][i], ml)) return srf_bad("MLER %g for %g in %g trials", s->v[R_MLER][i], s->v[R_MLE][i], mt);
  }
  if (s->trows) {
    if (s->trows != s->rows) return srf_bad("%d lines in the table of rates for %d SNR values", s->trows, s->rows);
    for (int i = 0; i < s->rows; i++) {
      double t = s->v[R_TRN][i], mt = s->v[R_MLT][i];
      if (fabs(s->t[i][0] - s->snr[i]) > 0.0051) return srf_bad("table line %d is for SNR %g, not %g", i, s->t[i][0], s->snr[i]);
      if (!near_(s->t[i][1], s->v[R_ENB][i] / (t * s->k)) || !near_(s->t[i][2], s->v[R_ENBL][i] / t) || !near_(s->t[i][3], s->v[R_ER][i] / t) || !near_(s->t[i][4], mt > 0 ? s->v[R_MLE][i] / mt : 0))
        return srf_bad("rates in table line %d: %g %g %g %g", i, s->t[i][1], s->t[i][2], s->t[i][3], s->t[i][4]);
    }
  }
  return 1;
}
#endif
