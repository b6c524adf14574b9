// C16: all histories of sessions, SNR lists and save points of a bounded length; the results file against a model
// (a map from SNR value to counters).
#include "resmodel.h"
static int is_zero_model(void) { return M.n == 0; }
static int do_save(void *h, int expect_ok, const char *when) { // returns 1 when the model advanced
  char *before = rd_file("r.srf");
  so_reset();
  model_save();
  int rc = sim_save_res(h), ok = expect_ok && next_ok, res = 0;
  if (file_exists("r.srf.bsy")) mc_fail("flag", "the busy flag stays behind %s", when);
  if (rc == 0 && !ok) mc_fail("not-refused", "saving succeeded %s although the file is %s", when, next_ok ? "invalid" : "full");
  if (rc != 0 && ok) mc_fail("save-failed", "saving failed %s: %s", when, so_get());
  if (rc == 0 && ok) { M = next; memcpy(S.saved, S.now, sizeof(S.now)); if (M.n || file_exists("r.srf")) check_file(when); res = 1; }
  if (rc != 0) {
    char *after = rd_file("r.srf");
    if ((before == NULL) != (after == NULL) || (before && strcmp(before, after))) mc_fail("altered", "the refused file was altered %s", when);
    free(after);
  }
  free(before);
  return res;
}
static const char *LISTS[] = { "1 2", "2 1", "1.5", "0.1234567 0.12345678", "1 1 2", "-1 3 1", "0.1 0.2", "1e-7 -0.0", "100.0000001 100.0000002", "2.00 +2 2e0",
  "0.30000000000000004 0.3", "-0.5 -1.5", "1.000000000000001 1", "0 5 0", "12345.678e-3 12.3456 12.345678" };
#define NL ((int)(sizeof(LISTS) / sizeof(LISTS[0])))
// One session: save after the trials of the mask (bit 0 before the first one); end 0: all trials and a final save, 1: abandoned after the last save.
static void session(const char *list, int mlb, int mask, int abandon) {
  void *h = open_session(list, mlb); int rc = 1, t = 0;
  if (!h) return;
  sess++;
  if (mask & 1) do_save(h, 1, "before the first trial");
  for (;;) {
    if (abandon && (mask >> (t + 1)) == 0) break;
    rc = sim_run(h); t++;
    if (rc != RC_SIMUL_NOT_COMPLETED) break;
    if (t < 30 && mask >> t & 1) { char w[60]; sprintf(w, "after trial %d of session %d", t, sess); do_save(h, 1, w); }
    if (mc.nfail >= 20 || t > 100) break;
  }
  if (!abandon) { if (rc) mc_fail("run", "sim_run returned %d", rc); do_save(h, 1, "at the end of the session"); }
  sim_close(h);
}
int main(int argc, char **argv) {
  mc_init(argc, argv);
  so_init();
  int a, b, c, i; char d[300];
  // histories of two sessions (three in the thorough tier)
  static const int MASK[] = { 0, 2, 4, 6, 1, 8, 14, 5 };
  int NM = mc.thorough ? 8 : 6;
  for (a = 0; a < NL; a++) for (int ma = 0; ma < NM; ma++) for (int ab = 0; ab < 2; ab++) {
    if (!mc_group()) continue;
    for (b = 0; b < NL; b++) for (int mb = 0; mb < NM; mb++) for (int bb = 0; bb < 2; bb++) for (c = -1; c < (mc.thorough ? NL : (b + mb) % 3 == 0 ? 3 : 0); c++) {
      if (ab && MASK[ma] == 0) continue;
      if (bb && MASK[mb] == 0) continue;
      if (!mc_case()) continue;
      snprintf(d, sizeof(d), "sessions {%s}/%d%s, {%s}/%d%s, {%s}", LISTS[a], MASK[ma], ab ? " abandoned" : "", LISTS[b], MASK[mb], bb ? " abandoned" : "", c < 0 ? "" : LISTS[c]);
      mc_note("%s", d);
      init_file("none");
      session(LISTS[a], a & 1, MASK[ma], ab);
      session(LISTS[b], (b ^ mb) & 1, MASK[mb], bb);
      if (c >= 0) session(LISTS[c], 1, 10, 0);
      mc.evals++;
      if (mc.evals % 700 == 1) mc_sample("%s: %d rows", d, M.n);
      if (mc.nfail >= 20) break;
    }
  }
  // all save masks of one session for every list, twice the same list
  for (a = 0; a < NL; a++) for (i = 0; i < (mc.thorough ? 128 : 64); i++) if (mc_group()) for (b = 0; b < 2; b++) {
    if (!mc_case()) continue;
    mc_note("session {%s} with save mask %d, twice, %s", LISTS[a], i, b ? "first abandoned" : "complete");
    init_file("none"); session(LISTS[a], 1, i, b); session(LISTS[a], 0, 127 - i, 0); mc.evals++;
  }
  // existing files: layouts, sizes, large counters
  static const char *INI[] = { "rows1", "rows3", "rows3 rev", "rows3 crlf", "rows3 glue", "rows3 unk", "rows3 cmt nocode", "rows3 big", "rows3 max", "rows1 max", "rows3 huge", "rows2 crlf glue rev cmt", "rows47", "rows48", "rows49", "rows50", "rows48 low", "rows49 low", "rows50 low", "rows47 big", "empty", "comments", "rows0" };
  for (a = 0; a < (int)(sizeof(INI) / sizeof(INI[0])); a++) for (b = 0; b < NL; b++) if (mc_group()) for (i = 0; i < 16; i++) {
    if (!mc_case()) continue;
    mc_note("existing file '%s', session {%s} with save mask %d", INI[a], LISTS[b], i);
    init_file(INI[a]);
    session(LISTS[b], i & 1, i, 0);
    if (next_ok) session(LISTS[(b + 1) % NL], 1, 2, 0);
    mc.evals++;
  }
  // longest lists: 50 values, ascending, descending, overlapping
  for (a = 0; a < 6; a++) if (mc_group()) for (b = 0; b < 6; b++) {
    if (!mc_case()) continue;
    char l[2][1200]; int q, w[2] = { a, b };
    for (q = 0; q < 2; q++) { l[q][0] = 0; for (i = 0; i < 50; i++) sprintf(l[q] + strlen(l[q]), "%g ", w[q] == 0 ? i * 0.1 : w[q] == 1 ? 4.9 - i * 0.1 : w[q] == 2 ? (i * 7 % 50) * 0.1 : w[q] == 3 ? (i % 25) * 0.1 : w[q] == 4 ? 0.1 * (i + 1) : 0.1 * (i / 2)); }
    mc_note("50 values: orders %d and %d", a, b);
    init_file("none"); session(l[0], 1, 64, 0); session(l[1], 0, 2, 0); mc.evals++;
  }
  // invalid files are refused and left alone; afterwards the trials can be saved elsewhere
  static const char *BAD[] = { "garbage", "SNR", "SNR {", "SNR { 1 2", "SNR { 1 }", "SNR { 1 }\ntr_num { 3 }\n", "code_n 4\ncode_k 2\nSNR { 1 2 }\ntr_num { 3 4 }\nen_bit { 1 1 }\nen_bl { 1 1 }\nerasures_num { 0 0 }\nml_tr_num { 0 0 }\nenml_bl { 0 }\n",
    "SNR { 1 2 }\ntr_num { 3 }\nen_bit { 1 }\nen_bl { 1 }\nerasures_num { 0 }\nml_tr_num { 0 }\nenml_bl { 0 }\n", "SNR { 1 }\ntr_num { 3 }\nen_bit { 1 }\nen_bl { 1 1 }\nerasures_num { 0 }\nml_tr_num { 0 }\nenml_bl { 0 }\n",
    "SNR { 1 }\ntr_num { 3 }\nen_bit { 1 }\nen_bl { 1 }\nerasures_num { 0 0 }\nml_tr_num { 0 }\nenml_bl { 0 }\n", "SNR { 1 }\ntr_num { 3 }\nen_bit { 1 }\nen_bl { 1 }\nerasures_num { 0 }\nml_tr_num { }\nenml_bl { 0 }\n",
    "SNR { 1 }\ntr_num { 3 }\nen_bit { }\nen_bl { 1 }\nerasures_num { 0 }\nml_tr_num { 0 }\nenml_bl { 0 }\n", "SNR { 1 }\ntr_num { 3 }\nen_bit { 1 }\nen_bl { 1 }\nerasures_num { 0 }\nml_tr_num { 0 }\nenml_bl { 0",
    "SNR { 1 }\ntr_num { 3 }\nen_bit { 1 }\nen_bl { 1 }\nerasures_num { 0 }\nml_tr_num { 0 }\nenml_bl 0\n", "SNR 1\n", "tr_num { 3 }\n", "SNR { 1 } }\n", "SNR { { 1 } }\n", "include\n", "include nosuchfile\n", "include r.srf\n", "rows51", "rows60", "dir", "truncated", "gen" };
  for (a = 0; a < (int)(sizeof(BAD) / sizeof(BAD[0])); a++) for (b = 0; b < NL; b++) for (i = 0; i < 4; i++) if (mc_group()) for (c = 0; c < (!strcmp(BAD[a], "truncated") ? 1000 : !strcmp(BAD[a], "gen") ? 3 * 7 * 5 : 1); c++) {
    if (!mc_case()) continue;
    char note[200]; snprintf(note, sizeof(note), "%.120s", BAD[a]); for (char *p = note; *p; p++) if (*p == '\n') *p = ' ';
    mc_note("invalid file '%s' %d, session {%s} with save mask %d", note, c, LISTS[b], i);
    init_file("none");
    int dir = !strcmp(BAD[a], "dir");
    if (dir) mkdir("r.srf", 0700);
    else if (!strncmp(BAD[a], "rows", 4)) { init_file(BAD[a]); memset(&M, 0, sizeof(M)); }
    else if (!strcmp(BAD[a], "truncated")) { // a valid file cut off before the end of its last required group
      init_file("rows3 rev"); memset(&M, 0, sizeof(M));
      char *t = rd_file("r.srf"); int l = (int)strlen(t); char *e = strrchr(t, '}');
      if (c > (int)(e - t) || c == 0) { free(t); break; }
      (void)l; if (b || i) { if (c % 9) { free(t); continue; } }
      t[c] = 0; wr_file("r.srf", "%s", t);
      int com = 1; for (char *p = t; *p; p++) if (!strchr(" \r\n", *p)) com = 0;
      free(t); if (com) continue;
    }
    else if (!strcmp(BAD[a], "gen")) { // 1 to 3 rows, every group in turn missing, empty, shorter, longer or not closed
      if ((b || i) && c % 5 != i) continue;
      int R = 1 + c / 35, g = c / 5 % 7, md = c % 5;
      if (md == 2 && R == 1) continue;
      FILE *f = fopen("r.srf", "wb"); fprintf(f, "code_n 4\ncode_k 2\n");
      for (int q = 0; q < 7; q++) {
        int len = R; if (q == g) { if (md == 0) continue; len = md == 1 ? 0 : md == 2 ? R - 1 : md == 3 ? R + 1 : R; }
        fprintf(f, "%s {", q == 0 ? "SNR" : RKEY[q - 1]); for (int v = 0; v < len; v++) fprintf(f, " %d", q == 0 ? v + 1 : q == 1 || q == 5 ? 9 : 1);
        fprintf(f, q == g && md == 4 ? "\n" : " }\n");
      }
      fclose(f);
    }
    else wr_file("r.srf", "%s", BAD[a]);
    void *h = open_session(LISTS[b], 1); if (!h) continue;
    int t = 0, rc = 1;
    while (rc && t < 20) { rc = sim_run(h); t++; if (rc && rc != RC_SIMUL_NOT_COMPLETED) break; if (i >> t & 1) {
      char *bf = dir ? NULL : rd_file("r.srf"); so_reset(); int r = sim_save_res(h); char *af = dir ? NULL : rd_file("r.srf");
      if (!r) mc_fail("not-refused", "saving to an invalid results file succeeded");
      if (!dir && (!af || strcmp(bf, af))) mc_fail("altered", "an invalid results file was altered");
      if (file_exists("r.srf.bsy")) mc_fail("flag", "the busy flag stays behind"); free(af); free(bf); } }
    char *bf = dir ? NULL : rd_file("r.srf"); so_reset(); int r = sim_save_res(h); char *af = dir ? NULL : rd_file("r.srf");
    if (!r) mc_fail("not-refused", "saving to an invalid results file succeeded");
    if (!dir && (!af || strcmp(bf, af))) mc_fail("altered", "an invalid results file was altered");
    if (dir && !file_exists("r.srf")) mc_fail("altered", "a directory was replaced");
    if (file_exists("r.srf.bsy")) mc_fail("flag", "the busy flag stays behind");
    free(af); free(bf);
    if (dir) rmdir("r.srf"); else remove("r.srf");
    memset(&M, 0, sizeof(M)); sess = 1;
    do_save(h, 1, "after the invalid file was moved away");
    sim_close(h); mc.evals++;
    if (mc.nfail >= 20) break;
  }
  (void)is_zero_model;
  return mc_done();
}
