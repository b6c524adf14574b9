// Results-file model shared by the saving checks: a map from SNR value to counters, sessions of scripted trials.
#ifndef RESMODEL_H
#define RESMODEL_H
#include "simstub.h"
typedef struct { long c[6]; } cnt_t; // as R_TRN..R_MLE
typedef struct { int n; double snr[SRF_MAX]; cnt_t p[SRF_MAX]; } model_t;
static model_t M;
static int sess, ml, stop_after, nsnr; static double SNR[60]; static const char *snr_txt;
static struct { int n; double snr[60]; cnt_t now[60], saved[60]; } S; // the session: by value of the list position
static int curpos;
static int dec(const double *y, int *xd) {
  int i, q, w = 0, p = -1; double R = (double)ST.k / ST.n;
  // the list position: the first one with this noise level that is not complete (two trials for each position)
  for (q = 0; q < S.n && p < 0; q++) if (fabs(ST.sg * sqrt(2 * R * pow(10, S.snr[q] / 10)) - 1) < 1e-12 && S.now[q].c[0] < 2) p = q;
  if (p < 0) for (q = 0; q < S.n && p < 0; q++) if (fabs(ST.sg * sqrt(2 * R * pow(10, S.snr[q] / 10)) - 1) < 1e-9 && S.now[q].c[0] < 2) p = q;
  if (p < 0) { mc_fail("noise-level", "unexpected trial at noise level %g", ST.sg); return -1; }
  int o = (int)(mc_mix(sess * 100 + ST.trial + 3) % 6), e = ST.trial ? o % 3 : 1, er = o / 3;
  if (S.now[p].c[0] == 1 && S.now[p].c[2] == 0) e = 2; // every point gets an error in its two trials
  for (i = 0; i < ST.k; i++) { int f = e == 2 || (e == 1 && i == 0); xd[i] = ST.sent[i] ^ f; w += f; }
  cnt_t *c = &S.now[p];
  c->c[R_TRN]++; c->c[R_ENB] += w; c->c[R_ENBL] += w > 0; c->c[R_ER] += er;
  if (ml && !er) {
    int c1[64], c2[64]; double d1 = 0, d2 = 0; st_code(ST.sent, c1); st_code(xd, c2);
    for (i = 0; i < ST.n; i++) { double a = y[i] - (c1[i] ? 1 : -1), b = y[i] - (c2[i] ? 1 : -1); d1 += a * a; d2 += b * b; }
    c->c[R_MLT]++; if (d1 > d2) c->c[R_MLE]++;
  }
  curpos = p;
  ST.now += 10;
  return er;
}
static model_t next; static int next_ok;
static void model_save(void) { // what a save of the session has to give
  next = M; next_ok = 1;
  for (int q = 0; q < S.n; q++) {
    if (S.now[q].c[0] == S.saved[q].c[0]) continue;
    int i; for (i = 0; i < next.n && next.snr[i] != S.snr[q]; i++);
    if (i == next.n) {
      if (next.n >= 50) { next_ok = 0; return; }
      for (i = next.n; i > 0 && next.snr[i - 1] > S.snr[q]; i--) { next.snr[i] = next.snr[i - 1]; next.p[i] = next.p[i - 1]; }
      next.snr[i] = S.snr[q]; memset(&next.p[i], 0, sizeof(cnt_t)); next.n++;
    }
    for (int r = 0; r < 6; r++) next.p[i].c[r] += S.now[q].c[r] - S.saved[q].c[r];
  }
}
static void check_file(const char *when) {
  char *t = rd_file("r.srf"); srf_t s;
  if (!t) { mc_fail("file-missing", "no results file %s", when); return; }
  if (!srf_parse(t, &s) || !srf_rates(&s)) { mc_fail("file-invalid", "%s: %s", when, srf_err); free(t); return; }
  free(t);
  if (s.n != ST.n || s.k != ST.k) mc_fail("code", "code_n %d code_k %d instead of %d %d", s.n, s.k, ST.n, ST.k);
  if (s.rows != M.n) { mc_fail("rows", "%s: %d rows instead of %d", when, s.rows, M.n); return; }
  uint64_t h = 7;
  for (int i = 0; i < M.n; i++) {
    if (i && !(s.snr[i] > s.snr[i - 1])) mc_fail("order", "%s: SNR %s after %s", when, s.snrs[i], s.snrs[i - 1]);
    if (s.snr[i] != M.snr[i]) { mc_fail("snr", "%s: row %d is for SNR %s instead of %.17g", when, i, s.snrs[i], M.snr[i]); return; }
    for (int r = 0; r < 6; r++) if (s.v[r][i] != M.p[i].c[r]) { mc_fail("counter", "%s: SNR %s: %s is %.0f, %ld were simulated and saved", when, s.snrs[i], RKEY[r], s.v[r][i], M.p[i].c[r]); return; }
    h = mc_hbytes(h, &M.p[i], sizeof(cnt_t)); h = mc_hbytes(h, &M.snr[i], 8);
  }
  mc_state(h);
}
static void *open_session(const char *list, int mlb) {
  void *h = NULL; sim_init_params_ sp = { "t.spf", 5, 1 };
  int trial0 = 0; (void)trial0;
  st_reset(4, 2); st_dec = dec; st_rand = st_rand_hash; ml = mlb;
  memset(&S, 0, sizeof(S));
  FILE *f = fopen("t.spf", "w"); char b[3000], *t;
  fprintf(f, "res_file r.srf\nml_lb %s\nmin_errors_per_snr 1\nSNR_val_trn { ", mlb ? "on" : "off");
  snprintf(b, sizeof(b), "%s", list);
  for (t = strtok(b, " "); t; t = strtok(NULL, " ")) { fprintf(f, "%s 2 ", t); S.snr[S.n++] = strtod(t, NULL); }
  fprintf(f, "}\n"); fclose(f);
  so_reset();
  if (sim_init((sim_init_params *)&sp, &h)) { mc_fail("init", "initialisation failed: %s", so_get()); return NULL; }
  return h;
}
static void init_file(const char *how) { // model and file at the beginning
  memset(&M, 0, sizeof(M)); remove("r.srf"); sess = 0;
  int n = 0, i, r, crlf = strstr(how, "crlf") != NULL; long big = strstr(how, "huge") ? 7000000000000 : strstr(how, "max") ? 2147483635 : strstr(how, "big") ? 1999999990 : 0, all = big && !strstr(how, "big");
  if (sscanf(how, "rows%d", &n) != 1) { if (strstr(how, "empty")) wr_file("r.srf", ""); if (strstr(how, "comments")) wr_file("r.srf", "%% nothing\n\n  \n"); return; }
  M.n = n;
  FILE *f = fopen("r.srf", "wb"); const char *nl = crlf ? "\r\n" : "\n";
  fprintf(f, "%s%s", strstr(how, "cmt") ? "% first line { \n" : "", strstr(how, "unk") ? "title abc\ngroup { 1 2 3 }\n" : "");
  if (!strstr(how, "nocode")) fprintf(f, "code_n 4%scode_k 2%s", nl, nl);
  for (i = 0; i < n; i++) {
    M.snr[i] = strstr(how, "low") ? i - 60 : i == 0 ? -1 : i == 1 ? 1 : i == 2 ? 1.5 : i + 10;
    for (r = 0; r < 6; r++) M.p[i].c[r] = (r == 0 ? 7 : r == R_ENB ? 9 : r == R_MLT ? 6 : 5 - r % 2) + i;
    if (all) for (r = 0; r < 6; r++) M.p[i].c[r] += big;
    else if (big) { M.p[i].c[0] += big; M.p[i].c[R_MLT] += big; M.p[i].c[R_ENB] += big / 3; M.p[i].c[R_ENBL] += big / 5; }
  }
  for (r = 6; r >= 0; r--) { // any order of the groups
    int q = strstr(how, "rev") ? 6 - r : r;
    fprintf(f, strstr(how, "glue") ? "%s {" : "%s { ", q == 6 ? "SNR" : RKEY[q]);
    for (i = 0; i < n; i++) { if (q == 6) fprintf(f, "%.15g", M.snr[i]); else fprintf(f, "%ld", M.p[i].c[q]); if (i + 1 < n || !strstr(how, "glue")) fprintf(f, " "); }
    fprintf(f, "}%s", nl);
  }
  if (strstr(how, "pad")) for (i = 0; i < 120; i++) fprintf(f, "%% a comment of a certain length, number %d, as notes on a simulation may be%s", i, nl);
  fclose(f);
}
#endif
