// C15: all error/no-error sequences of a bounded length (and long ones made of runs); when does a point stop?
#include "simstub.h"
static int req[3], minen, npts, len, period; static unsigned char seq[3000];
static double SNR[3] = { 3, -1, 0.5 };
static long trn[3], en[3], reach[3]; static int lastpt, order_bad, ret_each;
static long cap, ends_at;
static int dec(const double *y, int *xd) {
  int p = st_point(SNR, npts), i, e;
  if (p < 0) { mc_fail("noise-level", "trial with the noise level of no point"); p = 0; }
  if (p < lastpt || p > lastpt + 1) order_bad = 1;
  lastpt = p;
  long t = trn[p] + (p ? 3 * p : 0); // later points see a shifted sequence
  e = t < len ? seq[t] : period == 0 ? 1 : (t - len) % period == 0;
  for (i = 0; i < ST.k; i++) xd[i] = ST.sent[i] ^ e;
  trn[p]++; en[p] += e;
  if (ends_at && trn[p] >= ends_at) return -1;
  if (en[p] == minen && e) reach[p] = trn[p];
  if (ret_each) ST.now += 10;
  if (trn[p] > cap) { mc_fail("never-stops", "%ld trials simulated at point %d", trn[p], p); fflush(mc.fout); return -1; }
  return 0;
}
static void run(void) {
  void *h; int rc, i, calls = 0; sim_init_params_ sp = { "t.spf", 5, 1 };
  st_reset(2, 1); st_dec = dec; st_rand = st_rand_hash;
  memset(trn, 0, sizeof(trn)); memset(en, 0, sizeof(en)); memset(reach, 0, sizeof(reach)); lastpt = 0; order_bad = 0;
  so_reset();
  if (sim_init((sim_init_params *)&sp, &h)) { mc_fail("init", "initialisation failed: %s", so_get()); return; }
  while ((rc = sim_run(h)) == RC_SIMUL_NOT_COMPLETED) if (++calls > 100000) { mc_fail("never-ends", "no end after %d returns", calls); return; }
  sim_close(h);
  mc.evals++;
  if (mc.nfail >= 20) return;
  if (rc) { mc_fail("run", "sim_run returned %d", rc); return; }
  if (order_bad || lastpt != npts - 1) mc_fail("order", "points are not simulated in the listed order up to the last one");
  for (i = 0; i < npts; i++) {
    if (trn[i] < req[i]) mc_fail("too-few-trials", "point %d completed after %ld trials, %d were requested (minimum of %d errors reached after %ld)", i, trn[i], req[i], minen, reach[i]);
    if (en[i] < minen) mc_fail("too-few-errors", "point %d completed after %ld trials with %ld errors, at least %d were requested", i, trn[i], en[i], minen);
    if (en[i] >= minen) {
      if (2 * reach[i] <= req[i] && trn[i] != req[i]) mc_fail("not-exact", "point %d: %ld trials instead of the requested %d although the error minimum was reached after %ld", i, trn[i], req[i], reach[i]);
      if (trn[i] > req[i] && trn[i] > (3 * reach[i] + 1) / 2 + 1) mc_fail("too-many-trials", "point %d: %ld trials, %d requested and the error minimum reached after %ld", i, trn[i], req[i], reach[i]);
    }
    mc_state(mc_h2(mc_h2(trn[i] * 1000003 + en[i], req[i]), minen * 4096 + reach[i]));
  }
}
// The point goes on until the decoder fails, unless enough trials and errors are there.
static void endless(void) {
  void *h; int rc; sim_init_params_ sp = { "t.spf", 5, 1 };
  st_reset(2, 1); st_dec = dec; st_rand = st_rand_hash;
  memset(trn, 0, sizeof(trn)); memset(en, 0, sizeof(en)); memset(reach, 0, sizeof(reach)); lastpt = 0; order_bad = 0;
  so_reset();
  if (sim_init((sim_init_params *)&sp, &h)) { mc_fail("init", "initialisation failed: %s", so_get()); ends_at = 0; return; }
  while ((rc = sim_run(h)) == RC_SIMUL_NOT_COMPLETED);
  sim_close(h); mc.evals++;
  mc_state(mc_h2(mc_h2(trn[0] * 1000003 + en[0], req[0]), (uint64_t)minen + 7));
  if (rc == 0 && (en[0] < minen || trn[0] < req[0])) mc_fail("too-few-trials", "the point completes after %ld trials with %ld errors, %d and %d were requested", trn[0], en[0], req[0], minen);
  ends_at = 0;
}
static void desc(char *d, int n) {
  int i; sprintf(d, "requested %d/%d/%d, min errors %d, returns %d, then period %d, outcomes ", req[0], req[1], req[2], minen, ret_each, period);
  for (i = 0; i < n && i < 400; i++) sprintf(d + strlen(d), "%d", seq[i]);
}
int main(int argc, char **argv) {
  mc_init(argc, argv);
  so_init();
  char d[1000]; int i, cfg, v;
  static const struct { int style, r[3], minen, n, len; } C[] = {
    // style 0: SNR_val_trn; 1: EbNo_values + min_trials; 2: SNR_val_trn with zeros + min_trials (= r[1])
    { 0, {1}, 1, 1, 11 }, { 0, {2}, 1, 1, 11 }, { 0, {3}, 1, 1, 11 }, { 0, {4}, 2, 1, 11 }, { 0, {5}, 1, 1, 11 }, { 0, {6}, 1, 1, 12 }, { 0, {8}, 2, 1, 12 },
    { 0, {7}, 3, 1, 12 }, { 0, {10}, 2, 1, 12 }, { 0, {12}, 1, 1, 12 }, { 0, {12}, 4, 1, 12 }, { 0, {1}, 5, 1, 12 }, { 0, {20}, 3, 1, 12 },
    { 1, {4, 4}, 2, 2, 9 }, { 1, {1, 1}, 3, 2, 9 }, { 2, {5, 3}, 2, 2, 9 }, { 0, {2, 9, 4}, 2, 3, 9 }, { 2, {8, 20, 20}, 1, 3, 9 }, { 1, {10, 10}, 1, 2, 10 } };
  static const struct { int r, minen, min_trn; } B[] = { { 30, 25, 0 }, { 60, 22, 0 }, { 100, 30, 10 }, { 40, 40, 200 }, { 10, 50, 0 }, { 200, 21, 50 }, { 300, 24, 0 }, { 500, 22, 30 } };
  for (cfg = 0; cfg < (int)(sizeof(C) / sizeof(C[0])); cfg++) for (ret_each = 0; ret_each < 2; ret_each++) for (period = 0; period < 4; period += 3) for (int hi = 0; hi < 8; hi++) {
    if (!mc_group()) continue;
    npts = C[cfg].n; minen = C[cfg].minen; memcpy(req, C[cfg].r, sizeof(req)); len = C[cfg].len + (mc.thorough ? 4 : 0); cap = 3000;
    FILE *f = fopen("t.spf", "w");
    if (C[cfg].style == 1) { fprintf(f, "EbNo_values { "); for (i = 0; i < npts; i++) fprintf(f, "%g ", SNR[i]); fprintf(f, "}\nmin_trials_per_snr %d\n", req[0]); }
    else { fprintf(f, "SNR_val_trn { "); for (i = 0; i < npts; i++) fprintf(f, "%g %d ", SNR[i], C[cfg].style == 2 && i ? 0 : req[i]); fprintf(f, "}\n"); if (C[cfg].style == 2) fprintf(f, "min_trials_per_snr %d\n", req[1]); }
    fprintf(f, "res_file r.srf\nmin_errors_per_snr %d\n", minen); fclose(f);
    for (v = hi; v < (1 << len); v += 8) {
      if (!mc_case()) continue;
      for (i = 0; i < len; i++) seq[i] = v >> i & 1;
      desc(d, len); mc_note("%s", d);
      run();
      if (mc.evals % 5000 == 1) mc_sample("%s: %ld trials, %ld errors", d, trn[0], en[0]);
    }
  }
  // runs of good and bad trials: more than 20 errors, estimates
  static const int RL[] = { 0, 1, 3, 10, 22, 45, 120, 350 };
  for (cfg = 0; cfg < (int)(sizeof(B) / sizeof(B[0])); cfg++) for (int a = 0; a < 8; a++) {
    if (!mc_group()) continue;
    npts = 1; minen = B[cfg].minen; req[0] = B[cfg].r; req[1] = req[2] = 0; ret_each = 0; cap = 200000;
    wr_file("t.spf", "SNR_val_trn { 3 %d }\nmin_trials_per_snr %d\nres_file r.srf\nmin_errors_per_snr %d\n", req[0], B[cfg].min_trn, minen);
    for (int b = 0; b < 8; b++) for (int c = 0; c < 8; c++) for (int e = 0; e < 8; e++) for (int pi = 0; pi < 4; pi++) {
      if (!mc_case()) continue;
      static const int PD[] = { 0, 2, 7, 50 };
      int rl[4] = { RL[a], RL[b], RL[c], RL[e] }, o = 0;
      period = PD[pi];
      for (i = 0; i < 4; i++) for (int j = 0; j < rl[i]; j++) seq[o++] = i & 1;
      len = o;
      mc_note("requested %d, minimum %d, min errors %d; %d good, %d bad, %d good, %d bad trials, then errors with period %d", req[0], B[cfg].min_trn, minen, rl[0], rl[1], rl[2], rl[3], period);
      run();
    }
  }
  // a minimum that cannot be reached: the estimates grow up to the limit on trials
  static const int ME[] = { 100, 1000, 1000000, 1000000000, 2147483647 }, RQ[] = { 1, 100, 1999, 2000000000, 2147483647 };
  for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) for (int g = 0; g < 8; g++) {
    if (!mc_group()) continue;
    static const int GOOD[] = { 0, 1, 5, 30, 100, 400, 900, 1900 };
    npts = 1; minen = ME[a]; req[0] = RQ[b]; req[1] = req[2] = 0; ret_each = 0; cap = 200000;
    wr_file("t.spf", "SNR_val_trn { 3 %d }\nres_file r.srf\nmin_errors_per_snr %d\n", req[0], minen);
    for (int q = 0; q < 6; q++) {
      if (!mc_case()) continue;
      static const int PD[] = { 0, 2, 3, 7, 50, 90 };
      period = PD[q]; len = GOOD[g]; memset(seq, 0, len); ends_at = 2000 + 500 * (q == 5);
      mc_note("requested %d, min errors %d; %d good trials, then errors with period %d", req[0], minen, len, period);
      endless();
    }
  }
  return mc_done();
}
