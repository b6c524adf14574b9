// C22: the Octave loader (Octave/loadsrf.c, loaded as a library with a stand-in for the MEX host) against an
// independent reading of results files: files saved by the simulator after all histories, and files written here.
#include "resmodel.h"
#include "mexmock.h"
#include <dlfcn.h>
static int (*run)(int, int, const char *, int, lr_t *);
static lr_t L;
// ----- what a file says
typedef struct { int ok, n, k, rows, c[6], has[7]; double snr[60]; long v[6][60]; } want_t; // ok: 1 valid, 0 invalid, -1 not specified
static want_t W;
static void want(const char *txt) {
  memset(&W, 0, sizeof(W)); W.ok = 1; W.rows = -1; for (int r = 0; r < 6; r++) W.c[r] = -1;
  static char b[300000]; static char *tok[20000]; int nt = 0, i, j, com = 0; char *d = b;
  for (const char *c = txt; *c; c++) { if (*c == '%') com = 1; if (*c == '\n') com = 0; if (com) continue; if (*c == '{') { *d++ = ' '; *d++ = '{'; *d++ = ' '; } else if (*c == '}') { *d++ = ' '; *d++ = '}'; *d++ = ' '; } else *d++ = *c; }
  *d = 0;
  for (char *t = strtok(b, " \t\r\n"); t && nt < 20000; t = strtok(NULL, " \t\r\n")) tok[nt++] = t;
  for (i = 0; i < nt;) {
    char *key = tok[i++];
    if (key[0] == '{' || key[0] == '}') { W.ok = W.ok ? -1 : 0; return; }
    int q = -1; for (j = 0; j < 6; j++) if (!strcmp(key, RKEY[j])) q = j; if (!strcmp(key, "SNR")) q = 6;
    if (i >= nt) { W.ok = 0; return; }
    if (strcmp(tok[i], "{")) { if (tok[i][0] == '}') { W.ok = -1; return; } if (q >= 0) { W.ok = 0; return; } if (!strcmp(key, "code_n")) W.n = atoi(tok[i]); if (!strcmp(key, "code_k")) W.k = atoi(tok[i]); i++; continue; }
    int st = ++i; while (i < nt && strcmp(tok[i], "}")) { if (tok[i][0] == '{') { W.ok = -1; return; } i++; }
    if (i >= nt) { W.ok = 0; return; }
    int cnt = i - st; i++;
    if (q < 0) continue;
    if (cnt > 50) { W.ok = 0; return; }
    if (W.has[q]++) { W.ok = -1; return; }
    if (q == 6) { W.rows = cnt; for (j = 0; j < cnt; j++) W.snr[j] = strtod(tok[st + j], NULL); } else { W.c[q] = cnt; for (j = 0; j < cnt; j++) W.v[q][j] = atol(tok[st + j]); }
  }
  if (W.n == 0 || W.k == 0) W.ok = 0;
  for (j = 0; j < 6; j++) if (W.c[j] != W.rows && !(j == R_ER && W.c[j] <= 0)) W.ok = 0;
  int any = W.rows > 0; for (j = 0; j < 6; j++) any |= W.c[j] > 0;
  if (!any && W.n && W.k) W.ok = -1; // no rows
}
static void fld(int i, const char *key, int n, const double *v) {
  if (i >= L.nf || strcmp(L.f[i].key, key)) { int j; for (j = 0; j < L.nf && strcmp(L.f[j].key, key); j++); if (j == L.nf) { mc_fail("field", "no field %s", key); return; } i = j; }
  if (L.f[i].m != 1 || L.f[i].n != n) { mc_fail("field-size", "field %s is %d by %d instead of 1 by %d", key, L.f[i].m, L.f[i].n, n); return; }
  for (int j = 0; j < n; j++) if (!(fabs(L.f[i].v[j] - v[j]) <= 1e-12 * fabs(v[j]))) { mc_fail("value", "%s(%d) is %.17g instead of %.17g", key, j + 1, L.f[i].v[j], v[j]); return; }
}
static void judge(const char *fn) {
  char *t = rd_file(fn); int i; if (!t) { mc_fail("file-missing", "no file"); return; }
  want(t); uint64_t hs = mc_hstr(5, t); free(t);
  if (W.ok < 0) { run(1, 0, fn, 1, &L); mc.evals++; mc_tick(); return; }
  int r = run(1, 0, fn, 1, &L); mc.evals++; mc.trans++; mc_tick(); mc_state(hs);
  if (r == 3) { mc_fail("interface", "%s", L.emsg); return; }
  if (r == 4) { mc_fail("structure", "the result is not a scalar structure"); return; }
  if (!W.ok) { if (r == 0) mc_fail("not-reported", "an invalid file yields a structure"); else if (r == 2) mc_fail("not-reported", "an invalid file is not reported"); return; }
  if (r) { mc_fail("rejected", "a valid file is rejected: %s", L.emsg); return; }
  double d[60], v;
  v = W.n; fld(0, "n", 1, &v); v = W.k; fld(1, "k", 1, &v);
  fld(2, "EbNo", W.rows, W.snr);
  for (i = 0; i < W.rows; i++) d[i] = W.v[R_TRN][i] > 0 ? W.v[R_ENB][i] / ((double)W.v[R_TRN][i] * W.k) : 0; fld(3, "BER", W.rows, d);
  for (i = 0; i < W.rows; i++) d[i] = W.v[R_TRN][i] > 0 ? W.v[R_ENBL][i] / (double)W.v[R_TRN][i] : 0; fld(4, "WER", W.rows, d);
  for (i = 0; i < W.rows; i++) d[i] = W.v[R_TRN][i] > 0 && W.c[R_ER] > 0 ? W.v[R_ER][i] / (double)W.v[R_TRN][i] : 0; fld(5, "ERR", W.rows, d);
  for (i = 0; i < W.rows; i++) d[i] = W.v[R_MLT][i] > 0 ? W.v[R_MLE][i] / (double)W.v[R_MLT][i] : 0; fld(6, "MLER", W.rows, d);
  if (L.nf != 7) mc_fail("field", "%d fields instead of 7", L.nf);
}
// ----- A: after every save of the simulator
static void history(const char *list, int mlb, int mask) {
  void *h = open_session(list, mlb); int rc = 1, t = 0; if (!h) return;
  sess++;
  while (rc && t < 50) { rc = sim_run(h); t++; if ((mask >> t & 1) || !rc) { so_reset(); model_save(); if (sim_save_res(h)) mc_fail("save", "%s", so_get()); else { M = next; memcpy(S.saved, S.now, sizeof(S.now)); judge("r.srf");
    if (W.ok != 1 || W.rows != M.n) mc_fail("saved", "the file saved is not what was simulated"); else for (int i = 0; i < M.n; i++) for (int r = 0; r < 6; r++) if (W.v[r][i] != M.p[i].c[r]) { mc_fail("saved", "the file saved is not what was simulated"); r = 6; i = M.n; } } } }
  sim_close(h);
}
// ----- B: files written here
typedef struct { int n, k, rows; double snr[60]; long v[6][60]; } mf_t;
static mf_t F; static char G[9][3000], T[60000];
static void groups(int miss) { // texts of the groups: 0..5 counters, 6 SNR, 7 code_n, 8 code_k
  int i, r;
  for (r = 0; r < 7; r++) { char *p = G[r]; p += sprintf(p, "%s { ", r == 6 ? "SNR" : RKEY[r]); for (i = 0; i < F.rows; i++) p += r == 6 ? sprintf(p, "%.12g ", F.snr[i]) : sprintf(p, "%ld ", F.v[r][i]); sprintf(p, "}"); if (miss >> r & 1) G[r][0] = 0; }
  sprintf(G[7], "code_n %d", F.n); sprintf(G[8], "code_k %d", F.k);
}
static void emit(const int *ord, int layout) {
  T[0] = 0; char *p = T; int i;
  for (i = 0; i < 9; i++) { const char *g = G[ord[i]];
    if (layout == 2) p += sprintf(p, "%% %s {\n", g[0] ? "comment" : ""); if (layout == 4 && i % 3 == 1) p += sprintf(p, "other { 1 2 3 } text tr_num ");
    for (; *g; g++) { if (layout == 1 && *g == ' ') { *p++ = '\r'; *p++ = '\n'; } else if (layout == 3 && *g == ' ' && (g[1] == '}' || g[-1] == '{')) { if (g[-1] == '{' && g[1] == '}') *p++ = ' '; } else if (layout == 2 && *g == ' ') p += sprintf(p, "%% x }\n\t"); else *p++ = *g; }
    p += sprintf(p, "%s", layout == 0 ? "\n" : layout == 1 ? "\r\n" : layout == 3 ? "\n\n" : " \n"); }
  *p = 0;
}
static void test(void) { wr_file("f.srf", "%s", T); judge("f.srf"); }
static void table(int n, int k, int rows, int p) {
  static const long TR[] = { 0, 1, 7, 100, 20000, 2147483647, 5000000000, 900000000000001, 1L << 53 }; int i;
  F.n = n; F.k = k; F.rows = rows;
  for (i = 0; i < rows; i++) {
    F.snr[i] = p == 1 ? i * 0.25 - 3 : p == 2 ? -i * 1.5 : p == 3 ? 0.1234567 * i : (i * 7 % 11) - 2.5;
    long t = TR[(i + p) % 9]; F.v[0][i] = t; F.v[R_ENBL][i] = p == 3 ? t : t / 3; double eb = (double)F.v[R_ENBL][i] * (1 + p % k); F.v[R_ENB][i] = (long)eb;
    F.v[R_ER][i] = t / (2 + p); F.v[R_MLT][i] = p % 2 ? t - F.v[R_ER][i] : i % 2 ? t : 0; F.v[R_MLE][i] = F.v[R_MLT][i] / 5;
    if (p == 4) { F.v[R_MLT][i] = 5; F.v[R_MLE][i] = 3; F.v[R_ER][i] = t ? 1 : 0; }
  }
}
int main(int argc, char **argv) {
  mc_init(argc, argv);
  so_init();
  void *lib = dlopen(LOADER, RTLD_NOW | RTLD_LOCAL); if (!lib) { fprintf(stderr, "%s\n", dlerror()); return 3; }
  run = (int (*)(int, int, const char *, int, lr_t *))dlsym(lib, "loader_run"); if (!run) return 3;
  int a, b, c, i, j, k, w;
  static const char *LISTS[] = { "1 2", "2 1", "1.5", "0.1234567 0.12345678", "-1 3 1", "1e-7 -0.0", "100.0000001 100.0000002", "2.00 +2 2e0", "0 5 0" };
  for (a = 0; a < 9; a++) for (b = 0; b < 9; b++) if (mc_group()) for (i = 0; i < (mc.thorough ? 64 : 16); i++) for (j = 0; j < 4; j++) { if (!mc_case()) continue; mc_note("sessions {%s}/%d, {%s}/%d saved by the simulator", LISTS[a], i, LISTS[b], j); init_file("none"); history(LISTS[a], j & 1, i); history(LISTS[b], j >> 1, 10 >> (j & 1)); if (i == a && j == 1) mc_sample("%s", mc.note); }
  static const char *INI[] = { "rows1", "rows3", "rows3 rev", "rows3 crlf", "rows3 glue", "rows3 unk", "rows3 cmt", "rows3 big", "rows2 crlf glue rev cmt", "rows47", "rows48 low", "rows49", "rows50", "rows47 big", "rows3 max", "rows3 huge", "rows0", "rows3 nocode", "empty", "comments", "rows51", "rows58" };
  for (a = 0; a < 22; a++) if (mc_group() && mc_case()) { mc_note("file '%s'", INI[a]); init_file(INI[a]); judge("r.srf"); }
  // all orders of the nine entries in five layouts
  for (a = 0; a < 362880; a++) {
    if (a % 720 == 0 && !mc_group()) { a += 719; continue; }
    if (!mc_case()) continue;
    if (!mc.thorough && (a % 7 != a / 720 % 7)) continue;
    int ord[9], used = 0; w = a; for (i = 0; i < 9; i++) { int r = w % (9 - i); w /= 9 - i; for (j = 0; j < 9; j++) if (!(used >> j & 1) && r-- == 0) { ord[i] = j; used |= 1 << j; break; } }
    mc_note("order %d of the entries, layout %d", a, a / 7 % 5);
    table(8, 4, 1 + a % 4, a % 5); groups(a % 3 == 0 ? 1 << R_ER : 0); emit(ord, a / 7 % 5); test();
  }
  // counters: all combinations of small and large values in one row
  static const long V[] = { 0, 1, 2, 7, 2147483647, 6000000000 }, V2[] = { 0, 3, 999999999999999, 1L << 50, 1L << 52, 9007199254740991 };
  static const int ID[9] = { 7, 8, 6, 0, 1, 2, 3, 4, 5 };
  for (a = 0; a < 216; a++) if (mc_group()) for (b = 0; b < 216; b++) for (c = 0; c < (mc.thorough ? 4 : 2); c++) {
    if (!mc_case()) continue;
    F.n = c ? 1024 : 8; F.k = c == 0 ? 4 : c == 1 ? 1000 : c == 2 ? 1 : 512; if (b % 3 == 2) F.n = 1 << 20, F.k = c ? 1 << 19 : 1000003; F.rows = 2; F.snr[0] = -1.25; F.snr[1] = 3;
    w = a * 216 + b; for (i = 0; i < 6; i++) { F.v[i][0] = b % 3 == 2 ? V2[w % 6] : V[w % 6]; F.v[i][1] = V[(w + i + c) % 6]; w /= 6; }
    mc_note("counters %ld %ld %ld %ld %ld %ld, k=%d", F.v[0][0], F.v[1][0], F.v[2][0], F.v[3][0], F.v[4][0], F.v[5][0], F.k);
    groups(c == 1 && b % 4 == 0 ? 1 << R_ER : 0); emit(ID, 0); test();
  }
  // sizes
  for (a = 1; a <= 59; a++) for (b = 0; b < 5; b++) if (mc_group()) for (c = 0; c < 5; c++) for (i = 0; i < 2; i++) { if (!mc_case()) continue; mc_note("%d rows of table %d, layout %d, %s erasures", a, b, c, i ? "no" : "with"); table(64 << b, 5 + a, a, b); groups(i << R_ER); emit(ID, c); test(); }
  // numbers of values that do not match; groups, code_n or code_k missing
  for (a = 0; a < 16384; a++) {
    if (a % 64 == 0 && !mc_group()) { a += 63; continue; }
    if (!mc_case()) continue;
    mc_note("numbers of values %d", a); table(16, 5, 2, 1); groups(0); w = a;
    for (i = 0; i < 7; i++, w /= 4) { // as it should be, one too few, one too many, missing
      char *e = strrchr(G[i], '}');
      if (w % 4 == 1) { e -= 2; while (*e != ' ') e--; strcpy(e, " }"); } else if (w % 4 == 2) strcpy(e, "7 }"); else if (w % 4 == 3) G[i][0] = 0;
    }
    emit(ID, a % 5); test();
  }
  for (a = 0; a < 16; a++) if (mc_group() && mc_case()) { mc_note("code_n, code_k: variant %d", a); table(16, 5, 2, 1); groups(0); static const char *CN[] = { NULL, "", "code_n 0", "code_n" }, *CK[] = { NULL, "", "code_k 0", "code_k" }; if (a % 4) strcpy(G[7], CN[a % 4]); if (a / 4) strcpy(G[8], CK[a / 4]);
    static const int OR[9] = { 6, 0, 1, 2, 3, 4, 5, 7, 8 }; emit(OR, 0); if (a % 4 == 3 && a / 4 != 1) continue; test(); }
  // cut at every byte
  for (a = 0; a < 6; a++) for (b = 0; b < 5; b++) if (mc_group()) for (c = 0; c < 2000; c++) {
    if (!mc_case()) continue;
    if (a < 5) { table(16, 5, 1 + a, a); groups(0); int OR[9]; for (i = 0; i < 9; i++) OR[i] = (i + a * 2) % 9; emit(OR, b); }
    else { init_file("none"); history("1 2", 1, 0); char *t = rd_file("r.srf"); strcpy(T, t); free(t); if (b) break; }
    if (c >= (int)strlen(T)) break;
    T[c] = 0; mc_note("file %d, layout %d, cut after %d bytes", a, b, c); test();
  }
  // arguments
  if (mc_group()) {
    for (k = 0; k < 8; k++) if (mc_case()) {
      mc_note("arguments: variant %d", k); mc.evals++; mc_state(k + 900); table(16, 5, 3, 1); groups(0); emit(ID, 0); wr_file("f.srf", "%s", T); mkdir("d.srf", 0700);
      int r = k == 0 ? run(0, 0, "", 1, &L) : k == 1 ? run(0, 0, "", 0, &L) : k == 2 ? run(1, 1, "", 1, &L) : k == 3 ? run(1, 0, "nosuchfile.srf", 1, &L) : k == 4 ? run(1, 0, "", 1, &L) : k == 5 ? run(1, 0, "d.srf", 1, &L) : k == 6 ? run(1, 0, "f.srf", 0, &L) : run(2, 0, "f.srf", 1, &L);
      if (r == 3) mc_fail("interface", "%s", L.emsg);
      if (k < 6 && r != 1) mc_fail("not-reported", "no error is raised");
      if (k == 7 && r == 0) { double v = 16; fld(0, "n", 1, &v); }
    }
    for (k = 1; k < 4000; k += k < 300 ? 1 : 37) if (mc_case()) { static char nm[5000]; memset(nm, 'f', k); nm[k] = 0; mc_note("file name of %d characters", k); mc.evals++; int r = run(1, 0, nm, 1, &L); if (r != 1) mc_fail("not-reported", "no error is raised for a missing file"); }
  }
  return mc_done();
}
