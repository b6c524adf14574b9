// C27: all sequences of trial outcomes and control requests of a bounded length.
#include "simstub.h"
#define L_MAX 6
static int req[3], minen, npts, nstep, big, form; static int oc[L_MAX], op[L_MAX];
static double SNR[3] = { 3, -1, 0.5 };
static long trn[3], en[3], ref_trn[3], ref_en[3], reach[3]; // reach: trial at which the error minimum is reached
static int curp, touched[3];
static const char *ON[] = { "-", "more", "less", "next" };
static int outcome(int p, long t) { long i = t + 2 * p; return i < nstep ? oc[i] : i % 3 != 1; }
static int dec(const double *y, int *xd) {
  int p = st_point(SNR, npts), i, e;
  if (p < 0) { mc_fail("noise-level", "trial with the noise level of no point"); p = 0; }
  if (p < curp) mc_fail("order", "point %d is simulated after point %d", p, curp);
  curp = p; e = outcome(p, trn[p]);
  for (i = 0; i < ST.k; i++) xd[i] = ST.sent[i] ^ e;
  trn[p]++; en[p] += e; if (e && en[p] == minen) reach[p] = trn[p]; ST.now += 10;
  if (trn[p] > 3000) { mc_fail("never-stops", "%ld trials at point %d", trn[p], p); return -1; }
  return 0;
}
static int state(void *h, int *pt, int *t, int *r, int *e) {
  char b[1000]; double snr; int n, tot; sim_state_str(h, b);
  if (sscanf(b, "SNR: %lf (%d / %d), trn: %d / %d, en: %d", &snr, &n, &tot, t, r, e) != 6) { mc_fail("state", "status '%s'", b); return 0; }
  *pt = n - 1; return 1;
}
static void run(int control) {
  void *h; int rc, i, calls = 0, step = 0, want = -1; sim_init_params_ sp = { "t.spf", 5, 1 };
  st_reset(2, 1); st_dec = dec; st_rand = st_rand_hash;
  memset(reach, 0, sizeof(reach)); memset(trn, 0, sizeof(trn)); memset(en, 0, sizeof(en)); memset(touched, 0, sizeof(touched)); curp = 0;
  so_reset(); remove("r.srf");
  if (sim_init((sim_init_params *)&sp, &h)) { mc_fail("init", "initialisation failed: %s", so_get()); return; }
  int last_op[3] = { 0, 0, 0 }, last_req[3] = { 0, 0, 0 }, reached[3] = { 0, 0, 0 }, only_less[3] = { 0, 0, 0 };
  for (;;) {
    long t0 = trn[curp]; int p0 = curp;
    rc = sim_run(h);
    if (want == 1 && trn[p0] == t0) { mc_fail("ended-early", "point %d ends after %ld trials although %d are required", p0, t0, last_req[p0]); break; }
    if (want == 0 && trn[p0] != t0) { mc_fail("not-ended", "point %d goes on after %ld trials although %d are required", p0, t0, last_req[p0]); break; }
    want = -1;
    if (rc != RC_SIMUL_NOT_COMPLETED || ++calls > 20000) break;
    if (big && step >= nstep) break;
    if (!control || step >= nstep) continue;
    int pt, t, r, e, pt2, t2, r2, e2; static char res[3000], res2[3000];
    int o = op[step++];
    if (!o) continue;
    if (!state(h, &pt, &t, &r, &e)) break;
    sim_cur_res_str(h, res);
    if (pt != curp || t != trn[curp] || e != en[curp]) { mc_fail("state", "status shows point %d, %d trials, %d errors instead of %d, %ld, %ld", pt, t, e, curp, trn[curp], en[curp]); break; }
    sim_control(h, o == 1 ? SIM_CTRL_CUR_MORE : o == 2 ? SIM_CTRL_CUR_LESS : SIM_CTRL_CUR_NEXT); mc.trans++;
    if (!state(h, &pt2, &t2, &r2, &e2)) break;
    sim_cur_res_str(h, res2);
    if (pt2 != pt || t2 != t || e2 != e || strcmp(res, res2)) { mc_fail("counters", "'%s' changed point, counters or results: %d %d %d to %d %d %d", ON[o], pt, t, e, pt2, t2, e2); break; }
    double x = o == 1 ? r * 1.5 : o == 2 ? r * 2.0 / 3 : t, lim = 2e9;
    if (o == 1 && x > lim) { if (r2 < r || r2 < 1.5e9) mc_fail("more", "'more' changed the required trials from %d to %d", r, r2); }
    else if (o == 2 && x < t) { if (r2 != t) mc_fail("less", "'less' changed the required trials from %d to %d, %d are simulated", r, r2, t); }
    else if (fabs(r2 - x) >= 1 || r2 < t) mc_fail(ON[o], "'%s' changed the required trials from %d to %d, %d are simulated", ON[o], r, r2, t);
    only_less[pt] = o == 2 && (only_less[pt] || !touched[pt]);
    touched[pt] = 1; last_op[pt] = o; last_req[pt] = r2; reached[pt] = e >= minen;
    want = r2 > t; // whether the point has to go on
    mc_state(mc_h2(mc_h2(mc_h2(t, r), mc_h2(e, o)), mc_h2(r2, pt)));
    if (mc.nfail >= 20) break;
  }
  if (rc == RC_SIMUL_NOT_COMPLETED && big) { sim_close(h); mc.evals++; return; }
  if (rc && !mc.nfail) mc_fail("run", "sim_run returned %d after %d calls", rc, calls);
  if (!rc && sim_save_res(h)) mc_fail("save", "saving failed");
  sim_close(h);
  mc.evals++;
  if (rc) return;
  for (i = 0; i < npts; i++) {
    if (!control) { ref_trn[i] = trn[i]; ref_en[i] = en[i]; continue; }
    if (!touched[i]) { if (trn[i] != ref_trn[i] || en[i] != ref_en[i]) mc_fail("other-point", "point %d, to which no request applied, has %ld trials and %ld errors instead of %ld and %ld", i, trn[i], en[i], ref_trn[i], ref_en[i]); continue; }
    if ((reached[i] || last_op[i] == 3) && trn[i] != last_req[i]) mc_fail("not-exact", "point %d has %ld trials, %d were required after '%s'", i, trn[i], last_req[i], ON[last_op[i]]);
    // The minimum is reached after the last request: the lowered number counts as the requested one.
    if (only_less[i] && !reached[i] && trn[i] > (last_req[i] > 1.5 * reach[i] + 1 ? last_req[i] : 1.5 * reach[i] + 1)) mc_fail("less-undone", "point %d has %ld trials, %d were required after 'less' and the error minimum was reached at trial %ld", i, trn[i], last_req[i], reach[i]);
    if (last_op[i] == 1 && trn[i] < 1) mc_fail("no-trials", "point %d has no trials", i);
  }
  char *tx = rd_file("r.srf"); srf_t s;
  if (!tx || !srf_parse(tx, &s) || !srf_rates(&s)) mc_fail("file", "results file: %s", tx ? srf_err : "missing");
  else if (s.rows != npts) mc_fail("file", "%d rows for %d points", s.rows, npts);
  else for (int q = 0; q < npts; q++) for (i = 0; i < npts; i++) if (s.snr[q] == SNR[i] && (s.v[R_TRN][q] != trn[i] || s.v[R_ENBL][q] != en[i])) mc_fail("saved-counter", "SNR %g: %g trials and %g errors saved, %ld and %ld simulated", SNR[i], s.v[R_TRN][q], s.v[R_ENBL][q], trn[i], en[i]);
  free(tx);
}
int main(int argc, char **argv) {
  mc_init(argc, argv);
  so_init();
  int i, cfg, o0, o1, v, w;
  static const struct { int r[3], minen, n, form; } C[] = { { {3}, 1, 1 }, { {10}, 2, 1 }, { {7, 4}, 1, 2 }, { {2, 3, 5}, 1, 3 }, { {30, 6}, 3, 2 }, { {1, 1, 1}, 2, 3 }, { {12, 3}, 1, 2 },
    { {2000000000}, 1, 1 }, { {1600000000}, 1, 1 }, { {1300000000}, 2, 1 }, { {2147483647}, 1, 1 },
    { {10}, 2, 1, 1 }, { {7, 7}, 1, 2, 1 }, { {5, 5, 5}, 2, 3, 1 }, { {9, 4}, 1, 2, 2 },
    { {20, 20}, 7, 2, 0 }, { {20, 20}, 8, 2, 1 } };
  nstep = mc.thorough ? 6 : 5;
  for (cfg = 0; cfg < (int)(sizeof(C) / sizeof(C[0])); cfg++) for (o0 = 0; o0 < 4; o0++) for (o1 = 0; o1 < 4; o1++) {
    if (!mc_group()) continue;
    npts = C[cfg].n; minen = C[cfg].minen; memcpy(req, C[cfg].r, sizeof(req)); big = req[0] > 1000000;
    form = C[cfg].form;
    FILE *f = fopen("t.spf", "w");
    if (form == 2) fprintf(f, "min_trials_per_snr 6\n");
    if (form == 1) { fprintf(f, "min_trials_per_snr %d\nEbNo_values { ", req[0]); for (i = 0; i < npts; i++) fprintf(f, "%g ", SNR[i]); }
    else { fprintf(f, "SNR_val_trn { "); for (i = 0; i < npts; i++) fprintf(f, "%g %d ", SNR[i], req[i]); }
    fprintf(f, "}\nres_file r.srf\nmin_errors_per_snr %d\n", minen); fclose(f);
    for (v = 0; v < 1 << nstep; v++) {
      for (i = 0; i < nstep; i++) oc[i] = v >> i & 1;
      if (big && v) break;
      if (!big) { mc.c++; mc.crumb[1] = mc.c; mc_note("without requests"); if (mc.only_c < 0 || mc.c <= mc.only_c) run(0); }
      for (w = 0; w < 1 << (2 * (nstep - 2)); w++) {
        if (!mc_case()) continue;
        op[0] = o0; op[1] = o1; for (i = 2; i < nstep; i++) op[i] = w >> (2 * (i - 2)) & 3;
        char d[300]; sprintf(d, "requested %d/%d/%d%s, min errors %d, outcomes and requests", req[0], req[1], req[2], form == 1 ? " by min_trials_per_snr" : form ? " with min_trials_per_snr 6" : "", minen);
        for (i = 0; i < nstep; i++) sprintf(d + strlen(d), " %d %s", oc[i], ON[op[i]]);
        mc_note("%s", d);
        run(1);
        if (mc.evals % 3000 == 1) mc_sample("%s: %ld trials, %ld errors", d, trn[0], en[0]);
      }
    }
  }
  return mc_done();
}
