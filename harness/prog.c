// C20, C25: the whole program (main) under every behaviour of the clock over a bounded number of trials and all
// combinations of options. The clock is a function of the trials done.
#include "simstub.h"
#ifndef PROP
#define PROP 25
#endif
#define T_MAX 40
static int pat = -1, pat_len; // error pattern of the first trials, errors afterwards
static int dt[T_MAX], ndt, nscr, fail_at, ri, si, save_fail, enc_fail;
static uint64_t in_hash[T_MAX], in_pt[T_MAX];
static unsigned rs; // generator state
static int rand_lcg(void) { rs = (unsigned)mc_mix(rs * 2654435761u + 12345); return (int)(rs >> 1); }
static int seeded; // 0: reset state when srand was not called
// C25 model
static time_t run_start, save_start; static long out_size, saved_trials; static int status_due, save_due, nstatus, nsaves, early_save;
static long trials_in_file(void) {
  char *t = rd_file("r.srf"), *p; long s = 0;
  if (!t) return 0;
  p = strstr(t, "tr_num {");
  if (p) for (p = strchr(p, '{') + 1; *p && *p != '}';) { char *e; long v = strtol(p, &e, 10); if (e == p) p++; else { s += v; p = e; } }
  free(t); return s;
}
static long raw_out(void) { struct stat s; fstat(so_fd, &s); return (long)s.st_size; }
static void after_trial(void) { // called when the program proceeds to the next trial
  long t = trials_in_file(), o = raw_out();
  if (PROP == 25 && !save_fail) {
    if (status_due && o == out_size) mc_fail("status", "no status line after trial %d although more than %d s passed", ST.trial, ri);
    if (save_due && t != ST.trial) mc_fail("save-due", "the results of %d trials are not saved (%ld are) although more than %d s passed", ST.trial, t, si);
    if (!save_due && t == ST.trial && saved_trials != t) mc_fail("save-early", "the results of %d trials are saved before %d s passed", ST.trial, si);
  }
  saved_trials = t; out_size = o; status_due = save_due = 0;
}
static int dec(const double *y, int *xd) {
  int i, t = ST.trial, w = (int)(mc_mix(t + 11) % 3) == 0 || t % 3 == 2;
  if (pat >= 0) w = t < pat_len ? pat >> t & 1 : 1;
  if (t >= T_MAX) { mc_fail("never-ends", "more than %d trials", T_MAX); return -1; }
  if (t) after_trial();
  in_hash[t] = mc_hbytes(3, y, ST.n * sizeof(double)); in_pt[t] = (uint64_t)(ST.sg * 1e6) * 8 + ST.last_csnrn;
  if (t == fail_at) return -1;
  for (i = 0; i < ST.k; i++) xd[i] = ST.sent[i] ^ (w && i == 0);
  int d = t < ndt ? dt[t] : 0;
  ST.now += d;
  if (ST.now - run_start > ri) { status_due = 1; nstatus++; if (ST.now - save_start > si) { save_due = 1; nsaves++; save_start = ST.now; } run_start = ST.now; }
  return t % 4 == 3;
}
static int run_main(char **av, int ac, time_t now) {
  av[ac] = NULL;
  st_reset(4, 2); ST.rndcw = 1; ST.now = now; ST.enc_fail_at = enc_fail; rs = 1; st_dec = dec; st_rand = rand_lcg;
  run_start = save_start = now; out_size = saved_trials = 0; status_due = save_due = nstatus = nsaves = 0;
  memset(in_hash, 0, sizeof(in_hash)); memset(in_pt, 0, sizeof(in_pt));
  so_reset();
  int rc = ecclab_main(ac, av);
  fflush(stdout);
  mc.evals++;
  if (ST.open_cnt) mc_fail("not-closed", "the program ended with status %d without closing the codec", rc);
  return rc;
}
static int srand_state_hook;
static void spf(const char *res) {
  wr_file("t.spf", "res_file %s\nrandom_codeword on\nml_lb on\nSNR_val_trn { 1.5 3 -2 2 }\nmin_errors_per_snr 1\n", res);
}
int main(int argc, char **argv) {
  mc_init(argc, argv);
  so_init();
  (void)srand_state_hook; (void)seeded; (void)early_save; (void)nscr;
  static char a0[] = "prog", a1[] = "t.spf", nr[] = "-nr", osi[] = "-si", ori[] = "-ri"; char vs[20], vr[20];
  static const int DV[] = { 0, 1, 7, 700, -5 }, RI[] = { 0, 1, 5, 10 }, SI[] = { 0, 3, 9, 600 };
  int NT = mc.thorough ? 6 : 5, i, a, b;
  spf("r.srf"); fail_at = -1;
  // baseline
  char *base = NULL; uint64_t bh[T_MAX], bp[T_MAX]; int btr = 0;
  { char *av[] = { a0, a1, nr, NULL, NULL }; ndt = 0; ri = 10; si = 600; remove("r.srf");
    int rc = run_main(av, 3, 5000); base = rd_file("r.srf"); btr = ST.trial; memcpy(bh, in_hash, sizeof(bh)); memcpy(bp, in_pt, sizeof(bp));
    if (rc || !base || btr < 5) { mc_group(); mc_case(); mc_fail("baseline", "the program ended with status %d after %d trials, %s results file", rc, btr, base ? "with" : "without"); return mc_done(); } }
  for (a = 0; a < 4; a++) for (b = 0; b < 4; b++) for (int d0 = 0; d0 < 5; d0++) {
    if (!mc_group()) continue;
    int tot = 1; for (i = 1; i < NT; i++) tot *= 5;
    for (int v = 0; v < tot; v++) for (int opt = 0; opt < 6; opt++) {
      if (opt && (opt + v) % 12 > 1) continue;
      if (!mc_case()) continue;
      dt[0] = DV[d0]; int q = v; for (i = 1; i < NT; i++) { dt[i] = DV[q % 5]; q /= 5; } ndt = NT;
      ri = RI[a]; si = SI[b]; sprintf(vr, "%d", ri); sprintf(vs, "%d", si);
      char *o[6][9] = { { a0, a1, nr, osi, vs, ori, vr }, { a0, a1, ori, vr, nr, osi, vs }, { a0, a1, osi, vs, ori, vr, nr }, { a0, a1, osi, vs, nr, ori, vr }, { a0, a1, nr, ori, vr, osi, vs }, { a0, a1, ori, vr, osi, vs, nr } };
      char n[200] = ""; for (i = 0; i < NT; i++) sprintf(n + strlen(n), " %d", dt[i]);
      mc_note("options %s %s %s %s %s, seconds per trial%s", o[opt][2], o[opt][3], o[opt][4], o[opt][5], o[opt][6], n);
      remove("r.srf");
      int rc = run_main(o[opt], 7, 5000);
      if (ST.srand_calls) mc_fail("randomised", "the generator is seeded although -nr is given");
      if (rc) mc_fail("status-code", "exit status %d after a complete run: %s", rc, so_get());
      char *t = rd_file("r.srf");
      if (PROP == 20) {
        if (ST.trial != btr) mc_fail("trials", "%d trials instead of %d", ST.trial, btr);
        else if (memcmp(in_hash, bh, sizeof(bh))) mc_fail("decoder-input", "the decoder got other channel words");
        else if (memcmp(in_pt, bp, sizeof(bp))) mc_fail("noise-level", "the decoder got other noise levels");
        if (!t || strcmp(t, base)) mc_fail("results", "the results file is %s", t ? "another one" : "missing");
      } else {
        if (!t || trials_in_file() != ST.trial) mc_fail("complete", "the results file has %ld of %d trials", t ? trials_in_file() : -1, ST.trial);
        if (file_exists("r.srf.bsy")) mc_fail("flag", "the busy flag stays behind");
      }
      free(t);
      mc_state(mc_h2(mc_h2(nstatus * 64 + nsaves, a * 4 + b), mc_hbytes(1, dt, sizeof(int) * NT)));
      if (mc.evals % 3000 == 1) mc_sample("%s: %d status lines, %d intermediate saves", mc.note, nstatus, nsaves);
      if (mc.nfail >= 20) break;
    }
  }
#if PROP == 20
  // all error patterns of the first trials, all sets of trials after which the status is updated
  for (pat_len = 7, pat = 0; pat < 128; pat++) for (a = 0; a < 4; a++) {
    if (!mc_group()) continue;
    wr_file("t.spf", "res_file r.srf\nrandom_codeword on\nSNR_val_trn { %s }\nmin_errors_per_snr %d\n", a & 1 ? "0 4 -2 1" : "0 2 1 3 2 1", 1 + a / 2);
    char *av[] = { a0, a1, nr, NULL, NULL }; ndt = 0; ri = 10; si = 600; remove("r.srf"); uint64_t h1[T_MAX], p1[T_MAX];
    run_main(av, 3, 5000); char *b1 = rd_file("r.srf"); int tr = ST.trial; memcpy(h1, in_hash, sizeof(h1)); memcpy(p1, in_pt, sizeof(p1));
    for (int v = 0; v < (mc.thorough ? 1024 : 256); v++) {
      if (!mc_case()) continue;
      char *o[] = { a0, a1, nr, ori, vr, NULL, NULL, NULL };
      ndt = 10; for (i = 0; i < ndt; i++) dt[i] = v >> i & 1; ri = 0; sprintf(vr, "0");
      mc_note("block error pattern %d, min_errors_per_snr %d, status updates after the trials of the set %d", pat, 1 + a / 2, v);
      remove("r.srf"); run_main(o, 5, 5000);
      if (ST.trial != tr) mc_fail("trials", "%d trials instead of %d", ST.trial, tr);
      else if (memcmp(in_hash, h1, sizeof(h1))) mc_fail("decoder-input", "the decoder got other channel words");
      else if (memcmp(in_pt, p1, sizeof(p1))) mc_fail("noise-level", "the decoder got other noise levels");
      char *t = rd_file("r.srf"); if (!t || !b1 || strcmp(t, b1)) mc_fail("results", "the results file is %s", t ? "another one" : "missing");
      free(t); mc_state(mc_h2(mc_h2(pat, a), v));
      if (mc.nfail >= 20) break;
    }
    free(b1);
  }
  pat = -1; spf("r.srf");
  // seeding
  for (a = 0; a < 40; a++) if (mc_group() && mc_case()) {
    mc_note("seeding, start time %d", 5000 + a);
    char *av[] = { a0, a1, nr, NULL, NULL }; ndt = 0; ri = 10; si = 600; uint64_t h1[T_MAX];
    remove("r.srf"); run_main(av, 3, 5000 + a); char *t = rd_file("r.srf");
    if (memcmp(in_hash, bh, sizeof(bh)) || !t || strcmp(t, base)) mc_fail("not-reproducible", "a run without randomisation differs from another one");
    free(t);
    remove("r.srf"); run_main(av, 2, 5000 + a); memcpy(h1, in_hash, sizeof(h1)); unsigned s1 = ST.srand_val; int c1 = ST.srand_calls;
    remove("r.srf"); run_main(av, 2, 5000 + a + 1 + a % 3);
    if (!c1 || !ST.srand_calls || s1 == ST.srand_val) mc_fail("not-reseeded", "the generator is not reseeded (%d calls, seed %u, then %u)", c1, s1, ST.srand_val);
  }
#else
  // failing decoder, failing final save
  for (a = 0; a < 6; a++) for (i = 0; i < 4; i++) if (mc_group()) for (b = 0; b < 4; b++) {
    if (!mc_case()) continue;
    ri = RI[b]; si = SI[i]; sprintf(vr, "%d", ri); sprintf(vs, "%d", si);
    char *av[] = { a0, a1, nr, osi, vs, ori, vr, NULL };
    ndt = 0; remove("r.srf"); fail_at = a; mc_note("decoder error in trial %d, -si %d -ri %d", a, si, ri);
    if (a == 5) { fail_at = -1; remove("r.srf"); mkdir("r.srf", 0700); save_fail = 1; mc_note("final save fails"); }
    for (int q = 0; q < 5; q++) dt[q] = q * 3; ndt = 5;
    int rc = run_main(av, 7, 5000);
    if (rc == 0) mc_fail("exit-status", "exit status 0 although %s", a == 5 ? "the results could not be saved" : "decoding failed");
    if (a < 5 && trials_in_file() != a) mc_fail("error-results", "%ld trials in the results file, %d were completed", trials_in_file(), a);
    if (a == 5) rmdir("r.srf");
    save_fail = 0;
    if (file_exists("r.srf.bsy")) mc_fail("flag", "the busy flag stays behind");
    fail_at = -1;
  }
  // failing encoder: of the codeword of a trial, or of the decoded one in the ML test (then the trial is not complete)
  for (a = 1; a <= (mc.thorough ? 12 : 9); a++) for (i = 0; i < 4; i++) if (mc_group()) for (b = 0; b < 4; b++) {
    if (!mc_case()) continue;
    ri = RI[b]; si = SI[i]; sprintf(vr, "%d", ri); sprintf(vs, "%d", si);
    char *av[] = { a0, a1, nr, osi, vs, ori, vr, NULL };
    remove("r.srf"); fail_at = -1; enc_fail = a; mc_note("encoder error in call %d, -si %d -ri %d", a, si, ri);
    for (int q = 0; q < 5; q++) dt[q] = q * 3; ndt = 5;
    int rc = run_main(av, 7, 5000); enc_fail = 0;
    if (!ST.enc_failed) continue; // fewer calls
    if (rc == 0) mc_fail("exit-status", "exit status 0 although encoding failed");
    if (trials_in_file() != ST.trial - (ST.enc_failed == 2)) mc_fail("error-results", "%ld trials in the results file, %d were completed", trials_in_file(), ST.trial - (ST.enc_failed == 2));
    if (file_exists("r.srf.bsy")) mc_fail("flag", "the busy flag stays behind");
  }
  // arguments
  static const char *ARGS[][6] = { { NULL }, { "nosuch.spf", NULL }, { "bad.spf", NULL }, { "nores.spf", NULL }, { "nosnr.spf", NULL }, { "nosuch.spf", "-nr", NULL }, { "t.spf", "-si", NULL }, { "t.spf", "-ri", NULL }, { "t.spf", "-nr", "-si", NULL },
    { "t.spf", "-si", "5", "-ri", NULL }, { "init", NULL }, { "", NULL }, { ".", NULL } };
  static const int MAYRUN[] = { 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 0, 0, 0 }; // a missing option value: anything but a crash
  for (a = 0; a < 13; a++) if (mc_group() && mc_case()) {
    char *av[8] = { a0 }; int ac = 1; static char buf[6][40];
    for (i = 0; ARGS[a][i]; i++) { strcpy(buf[i], ARGS[a][i]); av[ac++] = buf[i]; }
    mc_note("arguments %s %s %s", ac > 1 ? av[1] : "(none)", ac > 2 ? av[2] : "", ac > 3 ? av[3] : "");
    wr_file("bad.spf", "res_file r.srf\nSNR_val_trn { 1 2\n"); wr_file("nores.spf", "SNR_val_trn { 1 2 }\n"); wr_file("nosnr.spf", "res_file r.srf\n");
    remove("r.srf"); ndt = 0; ri = 10; si = 600;
    int rc;
    if (!strcmp(ARGS[a][0] ? ARGS[a][0] : "", "init")) {
      av[1] = a1; av[2] = NULL; st_reset(4, 2); ST.init_fail = 1; st_dec = dec; st_rand = rand_lcg; so_reset(); rc = ecclab_main(2, av); fflush(stdout); mc.evals++;
    } else rc = run_main(av, ac, 5000);
    mc_state(mc_h2(9, a));
    if (!MAYRUN[a] || rc) { if (rc == 0) mc_fail("exit-status", "exit status 0"); if (ST.trial) mc_fail("ran", "%d trials were run", ST.trial); if (file_exists("r.srf")) mc_fail("ran", "a results file was written"); }
    if (raw_out() == 0) mc_fail("silent", "no message");
  }
#endif
  free(base);
  return mc_done();
}
