// C14: every sequence of trial outcomes of a bounded length; counters, displayed and saved rates against the log.
#include "simstub.h"
#define T_MAX 4
typedef struct { long trn, enb, enbl, er, mlt, mle; } cnt_t;
static cnt_t P[3]; static int curp, script[T_MAX + 1], nscript, ml, noise_choice, pos; static int npts;
static uint64_t nml1, nml0;
static double SNR[3], frate;
// one script entry: error 0..2, erasure 0..1, noise 0..1
static int rand_script(void) { // depends on the trial, the noise choice and the position in the trial
  uint64_t h = mc_mix((uint64_t)ST.trial * 1000 + (uint64_t)noise_choice * 500 + (uint64_t)pos++ + 5);
  return (int)(h >> 33);
}
static int dec(const double *y, int *xd) {
  int o = ST.trial < nscript ? script[ST.trial] : 1, e = o % 3, er = o / 3 % 2, i, w = 0;
  int pt = st_point(SNR, npts);
  if (pt < 0) { mc_fail("noise-level", "trial with noise level %g, which is that of no point", ST.sg); pt = 0; }
  curp = pt;
  cnt_t *p = &P[pt];
  for (i = 0; i < ST.k; i++) { int f = e == 2 || (e == 1 && i == ST.trial % ST.k); xd[i] = ST.sent[i] ^ f; w += f; }
  p->trn++; p->enb += w; p->enbl += w > 0; p->er += er;
  if (ml && !er) {
    int c1[64], c2[64]; double d1 = 0, d2 = 0;
    p->mlt++;
    st_code(ST.sent, c1); st_code(xd, c2);
    for (i = 0; i < ST.n; i++) {
      double v = ml == 2 ? (y[i] > 0 ? 1 : -1) : y[i], a = v - (c1[i] ? 1 : -1), b = v - (c2[i] ? 1 : -1);
      d1 += a * a; d2 += b * b;
    }
    if (d1 > d2) { p->mle++; nml1++; } else nml0++;
  }
  noise_choice = ST.trial + 1 < nscript ? script[ST.trial + 1] / 6 : 0;
  pos = 0;
  ST.now += 1;
  return er;
}
// Long codes whose symbols are the information bits: errors in 1, 2, 127, 128, ... bits, or in the symbols that
// decide whether the decoded codeword is closer.
static const int W[] = { 0, 1, 2, 127, 128, 255, 256, 257, 300, 511, 512, 513, 767, 1023, 1024 }; // then: 5 nearest decisions
#define NW 15
#define NKIND (NW + 5)
static const char *KN[] = { "most negative sign error", "least reliable right symbol", "least reliable wrong symbol", "pair that nearly keeps the distance", "pair that nearly keeps the distance, other sign" };
static int dec_long(const double *y, int *xd) {
  int o = ST.trial < nscript ? script[ST.trial] : 1, e = o % NKIND, er = o / NKIND, i, j, b = -1, b2 = -1, w = 0, pt = st_point(SNR, npts);
  if (pt < 0) { mc_fail("noise-level", "trial with noise level %g, which is that of no point", ST.sg); pt = 0; }
  curp = pt;
  cnt_t *p = &P[pt]; static double a[ST_N]; double best = 1e300;
  for (i = 0; i < ST.k; i++) { xd[i] = ST.sent[i]; a[i] = 0; for (j = i; j < ST.n; j += ST.k) a[i] += y[j] * (ST.sent[j % ST.k] ? 1 : -1); }
  if (e < NW) for (i = 0; i < ST.k && i < W[e]; i++) xd[(i * 7 + ST.trial) % ST.k] ^= 1; // gcd(7, k) = 1
  else if (e < NW + 3) { // one bit whose symbols sum up to little
    for (i = 0; i < ST.k; i++) { double v = e == NW ? a[i] + 1e6 : e == NW + 1 ? a[i] : -a[i]; if (v > 1e-5 && v < best) { best = v; b = i; } }
    if (b >= 0) xd[b] ^= 1;
  } else {
    for (i = 0; i < ST.k; i++) for (j = i + 1; j < ST.k; j++) { double v = (a[i] + a[j]) * (e == NW + 3 ? 1 : -1); if (v > 1e-5 && v < best) { best = v; b = i; b2 = j; } }
    if (b >= 0) { xd[b] ^= 1; xd[b2] ^= 1; }
  }
  for (i = 0; i < ST.k; i++) w += xd[i] != ST.sent[i];
  p->trn++; p->enb += w; p->enbl += w > 0; p->er += er;
  if (ml && !er) {
    double d = 0; p->mlt++;
    for (i = 0; i < ST.n; i++) if (xd[i % ST.k] != ST.sent[i % ST.k]) d += (ml == 2 ? (y[i] > 0 ? 1 : -1) : y[i]) * (ST.sent[i % ST.k] ? 1 : -1);
    if (ml == 1 && fabs(d) < 1e-6 && w) mc_fail("ambiguous", "difference of the distances %g", d);
    if (d < 0) { p->mle++; nml1++; } else nml0++;
  }
  noise_choice = ST.trial + 1 < nscript ? ST.trial & 1 : 0; pos = 0; ST.now += 1;
  return er;
}
static double rate(double a, double b) { return b > 0 ? a / b : 0; }
static void check_str(void *h, int shown) {
  static char b[20000], l[300]; int i;
  sim_cur_res_str(h, b);
  char *s = strchr(b, '\n');
  for (i = 0; i < shown; i++) {
    double v[4]; int nv;
    if (!s) { mc_fail("displayed-rows", "%d of %d points displayed: %s", i, shown, b); return; }
    char *e = strchr(s + 1, '\n'); snprintf(l, sizeof(l), "%.*s", e ? (int)(e - s - 1) : 200, s + 1);
    nv = sscanf(l, "%lf %lf %lf %lf", v, v + 1, v + 2, v + 3);
    cnt_t *p = &P[i];
    if (nv < (ml ? 4 : 3) || fabs(v[0] - SNR[i]) > 0.0051 || !near_(v[1], rate(p->enb, (double)p->trn * ST.k)) || !near_(v[2], rate(p->enbl, p->trn)) || (ml && !near_(v[3], rate(p->mle, p->mlt)))) {
      mc_fail("displayed-rate", "line '%s' for %ld trials, %ld bit, %ld block errors, %ld/%ld ML", l, p->trn, p->enb, p->enbl, p->mle, p->mlt); return; }
    s = e;
  }
  if (s && s[1]) mc_fail("displayed-rows", "more than the %d simulated points displayed: %s", shown, b);
}
static void check_state(void *h, int pt) {
  char b[1000]; double snr; int n, tot, trn, req, en, mle = 0;
  sim_state_str(h, b);
  int k = sscanf(b, "SNR: %lf (%d / %d), trn: %d / %d, en: %d, ML en: %d", &snr, &n, &tot, &trn, &req, &en, &mle);
  cnt_t *p = &P[pt];
  if (k < (ml ? 7 : 6) || fabs(snr - SNR[pt]) > 0.0051 || n != pt + 1 || tot != npts || trn != p->trn || en != p->enbl || (ml && mle != p->mle))
    mc_fail("displayed-state", "status '%s' for point %d of %d: %ld trials, %ld errors, %ld ML errors", b, pt + 1, npts, p->trn, p->enbl, p->mle);
}
static void run(const char *desc) {
  void *h; int rc, i; sim_init_params_ sp = { "t.spf", 0, 1 };
  st_reset(ST.n, ST.k); ST.rndcw = strstr(desc, "rnd") != NULL; ST.rate = frate;
  memset(P, 0, sizeof(P)); pos = 0; noise_choice = nscript ? script[0] / 6 : 0;
  st_dec = ST.k > 20 ? dec_long : dec; st_rand = rand_script;
  int calls = 0;
  remove("r.srf");
  so_reset();
  if (sim_init((sim_init_params *)&sp, &h)) { mc_fail("init", "initialisation failed: %s", so_get()); return; }
  for (;;) {
    int before = ST.trial;
    rc = sim_run(h);
    if (++calls > 2000) { mc_fail("never-ends", "no end after %d trials", ST.trial); break; }
    if (rc != RC_SIMUL_NOT_COMPLETED) break;
    if (ST.trial == before) { mc_fail("no-progress", "sim_run returned without a trial"); break; }
    check_state(h, curp); check_str(h, curp + 1);
  }
  if (rc != 0) mc_fail("run", "sim_run returned %d: %s", rc, so_get());
  check_str(h, npts);
  if (sim_save_res(h)) mc_fail("save", "saving failed: %s", so_get());
  sim_close(h);
  char *t = rd_file("r.srf"); srf_t s;
  if (!t || !srf_parse(t, &s) || !srf_rates(&s)) mc_fail("file", "results file: %s", t ? srf_err : "missing");
  else {
    if (s.n != ST.n || s.k != ST.k) mc_fail("file", "code_n %d code_k %d instead of %d %d", s.n, s.k, ST.n, ST.k);
    if (s.rows != npts) mc_fail("file", "%d rows for %d points", s.rows, npts);
    else for (i = 0; i < npts; i++) {
      long e[6] = { P[i].trn, P[i].enb, P[i].enbl, P[i].er, P[i].mlt, P[i].mle };
      if (s.snr[i] != SNR[i]) mc_fail("file", "SNR %g instead of %g", s.snr[i], SNR[i]);
      for (int r = 0; r < 6; r++) if (s.v[r][i] != e[r]) mc_fail("saved-counter", "point %d: %s is %g, the trials had %ld", i, RKEY[r], s.v[r][i], e[r]);
      if (ml && P[i].mle > P[i].enbl) mc_fail("ml-bound", "ML bound above the error count");
      mc_state(mc_hbytes(i, e, sizeof(e)));
    }
  }
  free(t);
  mc.evals++;
}
int main(int argc, char **argv) {
  mc_init(argc, argv);
  so_init();
  int T = mc.thorough ? 5 : 3, m, rnd, lay, a0, i;
  for (m = 0; m < 3; m++) for (rnd = 0; rnd < 2; rnd++) for (lay = 0; lay < 5; lay++) for (a0 = 0; a0 < 12; a0++) {
    if (!mc_group()) continue;
    static const char *MLS[] = { "ml_lb off", "ml_lb on", "ml_lb_hard on" };
    static const char *LAY[] = { "SNR_val_trn { -1.5 2 }", "SNR_val_trn { -2.25 1 3.5 1 }", "SNR_val_trn { -3 1 0 0 } min_trials_per_snr 2", "fixed_R 0.25 SNR_val_trn { -2 1 1.5 2 }", "SNR_val_trn { 0.5 2 } fixed_R 0.8125" };
    static const double LS[5][3] = { { -1.5 }, { -2.25, 3.5 }, { -3, 0 }, { -2, 1.5 }, { 0.5 } }, FR[5] = { 0, 0, 0, 0.25, 0.8125 };
    st_reset(lay == 0 || lay == 4 ? 8 : 4, lay == 0 || lay == 4 ? 3 : 2); frate = FR[lay];
    ml = m; npts = lay == 0 || lay == 4 ? 1 : 2; memcpy(SNR, LS[lay], sizeof(SNR));
    wr_file("t.spf", "res_file r.srf\n%s\n%s\nrandom_codeword %s\nmin_errors_per_snr %d\n", LAY[lay], MLS[m], rnd ? "on" : "off", lay == 2 ? 2 : 1);
    int tot = 1; for (i = 1; i < T; i++) tot *= 12;
    for (int v = 0; v < tot; v++) {
      if (!mc_case()) continue;
      script[0] = a0; int q = v; for (i = 1; i < T; i++) { script[i] = q % 12; q /= 12; }
      nscript = T;
      char d[200]; sprintf(d, "%s, %s, %s codewords; outcomes", LAY[lay], MLS[m], rnd ? "rnd" : "zero");
      for (i = 0; i < T; i++) sprintf(d + strlen(d), " %d%s%s", script[i] % 3, script[i] / 3 % 2 ? "E" : "", script[i] / 6 ? "'" : "");
      mc_note("%s", d);
      run(d);
      if (mc.evals % 1000 == 1) mc_sample("%s", d);
    }
  }
  frate = 0;
  for (lay = 0; lay < 3; lay++) for (m = 0; m < 3; m++) for (rnd = 0; rnd < 2; rnd++) for (a0 = 0; a0 < NKIND; a0++) {
    if (!mc_group()) continue;
    static const int NK[3][2] = { { 1024, 1024 }, { 1024, 600 }, { 512, 300 } };
    static const char *MLS[] = { "ml_lb off", "ml_lb on", "ml_lb_hard on" };
    st_reset(NK[lay][0], NK[lay][1]); ml = m; npts = 1; SNR[0] = lay - 1;
    wr_file("t.spf", "res_file r.srf\nSNR_val_trn { %d 2 }\n%s\nrandom_codeword %s\n", lay - 1, MLS[m], rnd ? "on" : "off");
    for (int v = 0; v < NKIND; v++) for (i = 0; i < (mc.thorough ? 4 : 2); i++) {
      if (!mc_case()) continue;
      script[0] = a0 + (i & 1 ? NKIND : 0); script[1] = v + (i & 2 ? NKIND : 0); nscript = 2;
      char d[400]; sprintf(d, "code (%d, %d), %s, %s codewords; outcomes", ST.n, ST.k, MLS[m], rnd ? "rnd" : "zero");
      for (int q = 0; q < 2; q++) { int e = script[q] % NKIND; if (e < NW) sprintf(d + strlen(d), " %d errors%s", W[e], script[q] >= NKIND ? "E" : ""); else sprintf(d + strlen(d), " %s%s", KN[e - NW], script[q] >= NKIND ? "E" : ""); }
      mc_note("%s", d);
      run(d);
      if (mc.evals % 1000 == 1) mc_sample("%s", d);
    }
  }
  mc_stat("ml_bound_errors", nml1); mc_stat("ml_bound_no_errors", nml0);
  return mc_done();
}
