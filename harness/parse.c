// C12 (PROP 12): well-formed parameter files are delivered token by token, whatever their layout.
// C13 (PROP 13): malformed ones are survived, and reported when they are of a kind that has to be.
#include "simstub.h"
#include <sys/stat.h>
extern char tk_seps_prepared[];
// ----- independent reader: text -> tokens
enum { WELL, MUST, UNSPEC };
typedef struct { char *t[70000]; int n, cls, in_group, depth; long size; } ref_t;
static ref_t RF; static char pool[3000000]; static long pn;
static void add_tok(const char *s, int len) { if (RF.n >= 70000 || pn + len + 2 > (long)sizeof(pool)) { RF.cls = UNSPEC; return; } char *d = pool + pn; memcpy(d, s, len); d[len] = 0; pn += len + 1; RF.t[RF.n++] = d; }
static void worse(int c) { if (RF.cls == WELL) RF.cls = c; else if (c == UNSPEC) RF.cls = UNSPEC; }
static char *slurp(const char *fn, long *n) { FILE *f = fopen(fn, "rb"); if (!f) return NULL; fseek(f, 0, SEEK_END); long cap = ftell(f) + 2; rewind(f); char *b = (char *)malloc(cap); *n = fread(b, 1, cap - 1, f); b[*n] = 0; fclose(f); return b; }
static struct { char nm[12]; char *b; long n; } CA[24]; static int nca; static const char *xbody; // files known without reading them
static char *get(const char *fn, long *n) {
  int i; if (xbody && !strcmp(fn, "x.spf")) { *n = strlen(xbody); return strdup(xbody); }
  for (i = 0; i < nca; i++) if (!strcmp(fn, CA[i].nm)) { *n = CA[i].n; char *b = (char *)malloc(*n + 1); memcpy(b, CA[i].b, *n); b[*n] = 0; return b; }
  if (xbody && strlen(fn) < 12) return NULL;
  return slurp(fn, n);
}
static void ref_text(const char *s, long len) {
  long i = 0; RF.size += len;
  if (++RF.depth > 60) { RF.cls = MUST; RF.depth--; return; }
  while (i < len && RF.depth) {
    // next token
    for (;;) {
      while (i < len && strchr(" \t\r\n", s[i])) { if (!s[i]) { worse(UNSPEC); } i++; }
      if (i < len && s[i] == '%') { while (i < len && s[i] != '\n') i++; continue; }
      break;
    }
    if (i >= len) break;
    long b = i; while (i < len && s[i] != '%' && !strchr(" \t\r\n", s[i])) { if (s[i] == ',' || (unsigned char)s[i] < 32) worse(UNSPEC); i++; }
    const char *t = s + b; int l = (int)(i - b);
    if (l == 7 && !strncmp(t, "include", 7)) {
      for (;;) { while (i < len && strchr(" \t\r\n", s[i])) i++; if (i < len && s[i] == '%') { while (i < len && s[i] != '\n') i++; continue; } break; }
      if (i >= len) { RF.cls = RF.cls == UNSPEC ? UNSPEC : MUST; break; } // no name (in an included file it may follow outside: unspecified)
      b = i; while (i < len && s[i] != '%' && !strchr(" \t\r\n", s[i])) i++;
      char fn[300]; if (i - b > 290) { worse(MUST); break; } memcpy(fn, s + b, i - b); fn[i - b] = 0;
      if (strchr(fn, '{') || strchr(fn, '}') || strchr(fn, ',')) worse(UNSPEC);
      long n; char *c = get(fn, &n);
      if (!c) { worse(MUST); continue; }
      if (n == 0) worse(UNSPEC);
      ref_text(c, n); free(c);
      if (RF.cls == MUST && RF.size > 200000) break;
      continue;
    }
    int close_ = 0;
    if (t[0] == '{' && !RF.in_group) { RF.in_group = 1; add_tok("{", 1); t++; l--; }
    if (RF.in_group && l > 0 && t[l - 1] == '}') { close_ = 1; l--; }
    if (l > 0) {
      if (t[0] == '{' || t[0] == '}' || t[l - 1] == '}') worse(MUST);
      else for (int q = 0; q < l; q++) if (t[q] == '{' || t[q] == '}') worse(UNSPEC);
      add_tok(t, l);
    }
    if (close_) { RF.in_group = 0; add_tok("}", 1); }
  }
  RF.depth--;
}
static void ref_read(const char *s, long len) {
  int i; RF.n = RF.cls = RF.in_group = RF.depth = 0; RF.size = 0; pn = 0;
  ref_text(s, len);
  if (RF.cls == WELL && RF.in_group) RF.cls = MUST;
  if (RF.cls == WELL) for (i = 0; i < RF.n;) { // key value pairs
    if (!strcmp(RF.t[i], "{") || !strcmp(RF.t[i], "}")) { RF.cls = UNSPEC; break; }
    if (++i >= RF.n) { RF.cls = MUST; break; }
    if (!strcmp(RF.t[i], "{")) { while (strcmp(RF.t[i], "}")) i++; i++; }
    else i++;
  }
}
static char *esc(const char *s) { static char b[900]; int n = 0; for (; *s && n < 880; s++) { if (*s == '\n') { b[n++] = '\\'; b[n++] = 'n'; } else if (*s == '\r') { b[n++] = '\\'; b[n++] = 'r'; } else if (*s == '\t') { b[n++] = '\\'; b[n++] = 't'; } else b[n++] = *s; } b[n] = 0; return b; }
// ----- one file
static void put(const char *fn, const char *s, long n) { int f = open(fn, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (f < 0 || write(f, s, n) != n) exit(3); close(f); }
static const char PRE[] = "res_file r.srf\nEbNo_values { 1 }\n";
// The file is t.spf; it is expected to be complete (or not) by the reader above.
static void judge(const char *s, long n, int well_only_tokens) {
  void *h = NULL; sim_init_params_ sp = { "t.spf", 5, 1 };
  ref_read(s, n);
  if ((PROP == 12) != (RF.cls == WELL)) return;
  if (xbody) put("x.spf", xbody, strlen(xbody));
  put("t.spf", s, n);
  st_reset(4, 2); so_reset();
  int rc = sim_init((sim_init_params *)&sp, &h), i; mc.evals++; mc_tick();
  if (RF.cls == WELL && !well_only_tokens && rc) mc_fail("rejected", "a well-formed file is rejected: %s", so_get());
  if (RF.cls == MUST && !rc) mc_fail("not-reported", "a malformed file is accepted");
  if (rc == 0 && RF.cls == WELL) {
    char *p = strdup(ST.params), *t; i = 0;
    for (t = strtok(p, tk_seps_prepared); t; t = strtok(NULL, tk_seps_prepared), i++) {
      if (i >= RF.n) { mc_fail("tokens", "token %d is '%.40s' instead of the end", i, t); break; }
      if (strcmp(t, RF.t[i])) { mc_fail("tokens", "token %d is '%.40s' instead of '%.40s'", i, t, RF.t[i]); break; }
    }
    if (!t && i < RF.n) mc_fail("tokens", "token %d '%.40s' is missing", i, RF.t[i]);
    free(p);
  }
  if (rc && ST.open_cnt) mc_fail("leak", "the codec instance is left open by a failed initialisation");
  if (rc == 0) sim_close(h);
  uint64_t hs = RF.cls; for (i = 0; i < RF.n && i < 200; i++) hs = mc_hstr(hs, RF.t[i]);
  mc_state(hs); mc.trans += RF.n;
}
static void file(const char *body, int where) { // 0: after the required parameters, 1: before them, 2: included at the end, 3: included first
  static char b[400000]; long n;
  if (where == 0) n = snprintf(b, sizeof(b), "%s%s", PRE, body);
  else if (where == 1) n = snprintf(b, sizeof(b), "%s\n%s", body, PRE);
  else { if (!*body) return; n = where == 2 ? snprintf(b, sizeof(b), "%sinclude x.spf", PRE) : snprintf(b, sizeof(b), "include x.spf\n%s", PRE); }
  xbody = body; judge(b, n, 0); xbody = NULL;
}
static void all_strings(const char **lex, int nl, int len, int places) {
  int idx[10], i, k; char b[300];
  for (k = 0; k < nl * nl; k++) {
    if (!mc_group()) continue;
    long tot = 1; for (i = 2; i < len; i++) tot *= nl;
    for (long v = 0; v < tot; v++) {
      idx[0] = k % nl; idx[1] = k / nl; long w = v; for (i = 2; i < len; i++) { idx[i] = w % nl; w /= nl; }
      if (!mc_case()) continue;
      b[0] = 0; for (i = 0; i < len; i++) strcat(b, lex[idx[i]]);
      mc_note("\"%s\"", esc(b));
      for (i = 0; i < places; i++) file(b, (i * (places == 2 ? 2 : 1) + (places < 4 ? v : 0)) % 4);
      if (v == tot / 2 + k) mc_sample("%s", mc.note);
      if (mc.nfail >= 20) break;
    }
  }
}
// ----- settings reach the simulator
static int ntr[60], cur, nrnd; static double SN[60]; static int nsn, anyml; static double fR;
static int dec(const double *y, int *xd) {
  (void)y; double R = fR > 0 ? fR : (double)ST.k / ST.n; int q, b = -1;
  for (q = 0; q < nsn; q++) if (fabs(ST.sg * sqrt(2 * R * pow(10, SN[q] / 10)) - 1) < 1e-9) b = q;
  if (b < 0) mc_fail("noise-level", "noise level %g is of no SNR value", ST.sg); else { if (b < cur) mc_fail("order", "SNR values out of order"); cur = b; ntr[b]++; }
  for (q = 0; q < ST.k; q++) { xd[q] = ST.sent[q] ^ (q == 0); if (ST.rndcw && ST.sent[q]) nrnd++; }
  ST.now += 10;
  return 0;
}
static void settings(void) {
  // all orders of seven keys, three layouts, several values
  static const char *VAL[4][7] = {
    { "res_file q.srf", "SNR_val_trn { 1 6 -2.5 9 3 1 }", "min_trials_per_snr 4", "min_errors_per_snr 3", "ml_lb on", "random_codeword on", "fixed_R 0.25" },
    { "res_file long_name-1.2.srf", "EbNo_values { 2.25 -1 }", "min_trials_per_snr 8", "min_errors_per_snr 12", "ml_lb off", "random_codeword off", "unknown { res_file bad.srf SNR_val_trn 1 }" },
    { "res_file q.srf", "EbNo_values { 0.5 }", "unknown res_file", "min_errors_per_snr 7", "ml_lb_hard on", "random_codeword on", "RM_m 3" },
    { "res_file q.srf", "SNR_val_trn { 1 0 2 -3 }", "min_trials_per_snr 5", "unknown2 { }", "ml_lb on", "ml_lb_hard off", "fixed_R 1" } };
  int v, a, l, i, j;
  for (v = 0; v < 4; v++) for (a = 0; a < 5040; a++) {
    if (a % 63 == 0 && !mc_group()) { a += 62; continue; }
    int ord[7], used = 0, w = a; for (i = 0; i < 7; i++) { int r = w % (7 - i); w /= 7 - i; for (j = 0; j < 7; j++) if (!(used >> j & 1) && r-- == 0) { ord[i] = j; used |= 1 << j; break; } }
    for (l = 0; l < 5; l++) {
      if (!mc_case()) continue;
      if (!mc.thorough && (a + l) % 5 > 1) continue;
      char b[2000] = "", t[400], inc[400] = "";
      for (i = 0; i < 7; i++) {
        strcpy(t, VAL[v][ord[i]]);
        if (l == 1) for (char *c = t; *c; c++) { if (*c == ' ') *c = i % 2 ? '\t' : '\n'; }
        if (l == 3) { char u[400]; int n = 0; for (char *c = t; *c; c++) { u[n++] = *c; if (*c == ' ') { n += sprintf(u + n, "%%{ x }\r\n"); } } u[n] = 0; strcpy(t, u); }
        if (l == 4 && i == a % 7) { strcpy(inc, t); strcpy(t, "include i.spf"); }
        if (l == 2) { char u[400]; int n = 0; for (char *c = t; *c; c++) { if (*c == ' ' && n && (u[n - 1] == '{' || c[1] == '}')) continue; u[n++] = *c; } u[n] = 0; strcpy(t, u); }
        strcat(b, t); strcat(b, l == 0 ? "\n" : l == 1 ? " " : l == 2 ? "\r\n" : "\n%\n");
      }
      put("i.spf", inc, strlen(inc)); put("t.spf", b, strlen(b));
      mc_note("settings %d in order %d, layout %d", v, a, l);
      void *h = NULL; sim_init_params_ sp = { "t.spf", 5, 1 };
      st_reset(4, 2); so_reset(); st_dec = dec; st_rand = st_rand_hash; memset(ntr, 0, sizeof(ntr)); cur = 0; nrnd = 0;
      ST.rndcw = v == 0 || v == 2; fR = v == 0 ? 0.25 : v == 3 ? 1 : 0;
      static const double SS[4][4] = { { 1, -2.5, 3 }, { 2.25, -1 }, { 0.5 }, { 1, 2 } }; static const int NS[4] = { 3, 2, 1, 2 };
      nsn = NS[v]; memcpy(SN, SS[v], sizeof(SS[v]));
      remove("q.srf"); remove("long_name-1.2.srf"); remove("bad.srf");
      if (sim_init((sim_init_params *)&sp, &h)) { mc_fail("rejected", "rejected: %s", so_get()); continue; }
      int rc, g = 0; while ((rc = sim_run(h)) == RC_SIMUL_NOT_COMPLETED && g++ < 200);
      if (rc) mc_fail("run", "sim_run gives %d", rc);
      if (sim_save_res(h)) mc_fail("save", "%s", so_get());
      sim_close(h);
      static const int TR[4][4] = { { 6, 9, 3 }, { 12, 12 }, { 7 }, { 5, 5 } }, TX[4][4] = { { 6, 9, 5 }, { 18, 18 }, { 11 }, { 5, 5 } };
      for (i = 0; i < nsn; i++) if (ntr[i] < TR[v][i] || ntr[i] > TX[v][i]) mc_fail("trials", "%d trials at SNR %g instead of %d to %d", ntr[i], SN[i], TR[v][i], TX[v][i]);
      char *r = rd_file(v == 1 ? "long_name-1.2.srf" : "q.srf"); srf_t s;
      if (!r || !srf_parse(r, &s)) { mc_fail("file", "results are not in the file named"); free(r); continue; }
      double ml = 0; for (i = 0; i < s.rows; i++) ml += s.v[R_MLT][i];
      if ((ml > 0) != (v != 1)) mc_fail("ml", "ML bound is %s", ml > 0 ? "on" : "off");
      if (ST.rndcw && !nrnd) mc_fail("rnd", "the sent words are not random");
      free(r); mc.evals++; mc_state(mc_h2(7000000 + v * 10 + l, a));
    }
  }
}
// Values in the forms they may have: names of results files, numbers of SNR values, notations of numbers.
static void value(const char *name, const char *snr, const char *min, int trials, const char *rest) {
  static char b[9000]; sprintf(b, "%s\nres_file %s\n%s\n%s", snr, name, min, rest); put("t.spf", b, strlen(b));
  mc_note("\"%.300s\"", esc(b));
  void *h = NULL; sim_init_params_ sp = { "t.spf", 5, 1 }; int rc, g = 0, i;
  st_reset(4, 2); so_reset(); st_dec = dec; st_rand = st_rand_hash; memset(ntr, 0, sizeof(ntr)); cur = 0; fR = 0; ST.rndcw = 0;
  remove(name); mc.evals++;
  if (sim_init((sim_init_params *)&sp, &h)) { mc_fail("rejected", "rejected: %s", so_get()); return; }
  while ((rc = sim_run(h)) == RC_SIMUL_NOT_COMPLETED && g++ < 9000);
  if (rc) mc_fail("run", "sim_run gives %d", rc); else if (sim_save_res(h)) mc_fail("save", "%s", so_get());
  sim_close(h);
  for (i = 0; i < nsn; i++) if (ntr[i] != (trials < 0 ? i % 4 + 1 : trials)) mc_fail("trials", "%d trials at SNR %g", ntr[i], SN[i]);
  char *r = rd_file(name); srf_t s;
  if (!r || !srf_parse(r, &s) || s.rows != nsn) mc_fail("file", "results are not in the file named");
  free(r); remove(name); mc_state(mc_hstr(11, b));
}
static void values(void) {
  static const char *NM[] = { "0", "7.srf", "-nr", "{x", "x}", "a.b.c", "res_file", "on", "include.srf", "sub/r.srf", "./r", "R:1", "x=y", "#1", "RM(2-4).srf", "r.srf.bsy", "\xc3\xa9", "'q'", "\"q\"", "a\\b" };
  static const char *NUM[] = { "1", "+1", "1.", "1.0", "01", "1e0", "10e-1", "0.1E1", "1.00000000000000000000", "+01.0e+00" };
  static char nm[300], e[3000]; int n, i, k;
  mkdir("sub", 0777);
  for (n = 1; n <= 250; n++) if (mc_group() && mc_case()) { for (i = 0; i < n; i++) nm[i] = 'a' + i % 26; nm[n] = 0; nsn = 1; SN[0] = 1; value(nm, "EbNo_values { 1 }", "min_trials_per_snr 3", 3, ""); }
  for (n = 0; n < 20; n++) if (mc_group() && mc_case()) { if (strchr(NM[n], '{') || strchr(NM[n], '}')) continue; nsn = 1; SN[0] = 1; value(NM[n], "EbNo_values { 1 }", "min_trials_per_snr 3", 3, ""); }
  for (n = 1; n <= 50; n++) for (k = 0; k < 3; k++) if (mc_group() && mc_case()) {
    int w = sprintf(e, k ? "SNR_val_trn {\n" : "EbNo_values { "); nsn = n;
    for (i = 0; i < n; i++) { SN[i] = k == 2 ? 20 - i * 0.75 : -5 + i * 0.25; w += k ? sprintf(e + w, "%g %d\n", SN[i], i % 4 + 1) : sprintf(e + w, "%g ", SN[i]); } sprintf(e + w, "}");
    value("r.srf", e, k == 1 ? "min_trials_per_snr 9" : "min_trials_per_snr 2", k ? -1 : 2, "");
  }
  for (n = 0; n < 10; n++) for (k = 0; k < 4; k++) if (mc_group() && mc_case()) {
    nsn = 2; SN[0] = 1; SN[1] = -1; char min[100] = "min_trials_per_snr +03", rest[100] = "";
    if (k == 0) sprintf(e, "EbNo_values { %s -%s }", NUM[n], NUM[n][0] == '+' ? NUM[n] + 1 : NUM[n]); else sprintf(e, "SNR_val_trn { %s 3 -1 %s }", NUM[n], k == 2 ? "3" : "003");
    if (k == 3) { sprintf(rest, "fixed_R %s", NUM[n]); SN[0] = 1 + 10 * log10(2); SN[1] = -1 + 10 * log10(2); }
    value("r.srf", e, min, 3, rest);
  }
}
static void big(long pad, int kind) { // padding of one kind, parameters before, in and after it
  static char b[1600000]; long n = 0, i; int nv = 0;
  n += sprintf(b, "first 1 %s", PRE);
  if (kind == 0) { memset(b + n, ' ', pad); n += pad; }
  else if (kind == 1) { b[n++] = '%'; memset(b + n, 'c', pad); n += pad; b[n++] = '\n'; }
  else if (kind == 2) { n += sprintf(b + n, "grp { "); for (i = 0; i + 4 < pad; i += 4) n += sprintf(b + n, "%03d ", nv++ % 1000); n += sprintf(b + n, "} "); }
  else if (kind == 3) for (i = 0; i + 10 < pad; i += 10) n += sprintf(b + n, "k%03d v%03d\n", nv % 1000, nv % 997), nv++;
  else if (kind == 4) { n += sprintf(b + n, "key "); memset(b + n, 'w', pad); n += pad; b[n++] = '\n'; }
  else if (kind == 5) for (i = 0; i + 9 < pad; i += 9) n += sprintf(b + n, "%s", "k { a b }"), b[n - 1] = '}', b[n++] = '\n';
  else if (kind == 6) { for (i = 0; i + 7 < pad; i += 7) n += sprintf(b + n, "k {a}\r\n"); }
  else if (kind == 7) { put("x.spf", b, 0); char *x = b + 800000; long m = 0; for (i = 0; i + 10 < pad; i += 10) m += sprintf(x + m, "k%03d v%03d\n", nv % 1000, nv % 997), nv++; if (!m) return; put("x.spf", x, m); n += sprintf(b + n, "include x.spf "); }
  else if (kind == 8) { char *x = b + 800000; memset(x, ' ', pad); memcpy(x + pad, "u v", 3); put("x.spf", x, pad + 3); n += sprintf(b + n, "include x.spf\ninclude x.spf "); }
  n += sprintf(b + n, "last { 2 3 }");
  if (PROP == 13 || n < 120000) judge(b, n, PROP == 12 && (kind == 7 || kind == 8) && 2 * pad > 110000);
  else judge(b, n, 1);
}
int main(int argc, char **argv) {
  mc_init(argc, argv);
  so_init();
  int i, k; long n;
  // included files
  put("i1", "p q", 3); put("i2", "p q % comment", 13); put("i3", "\n\n r { s t }", 12); put("i4", "include i1\r\n", 12); put("i5", "% c\np { q\n", 10); put("i6", "}", 1); put("i7", "include i2\ninclude i3 include i4\n", 33); put("i8", " \n", 2);
  { static char lb[9000]; int q; // recursive ones are long, so that the limit is reached soon
    memset(lb, ' ', 4000); memcpy(lb, "p q", 3); strcpy(lb + 4000, "\ninclude self\n"); put("self", lb, strlen(lb)); memset(lb, 'c', 4000); lb[0] = '%'; strcpy(lb + 4000, "\ninclude pongo"); for (q = 100; q < 4000; q += 100) memcpy(lb + q, "\nk v\n%", 6); put("pingo", lb, strlen(lb)); }
  put("pongo", "include pingo\np q", 17); put("i0", "", 0);
  { static const char *NM[] = { "i0", "i1", "i2", "i3", "i4", "i5", "i6", "i7", "i8", "self", "pingo", "pongo" }; for (i = 0; i < 12; i++) { strcpy(CA[nca].nm, NM[i]); CA[nca].b = slurp(NM[i], &CA[nca].n); nca++; } }
  static const char *CH[] = { "a", " ", "\n", "\r\n", "%", "{", "}", "b" };
  all_strings(CH, 8, mc.thorough ? 7 : 6, mc.thorough ? 4 : 1);
  static const char *LX[] = { "a ", "b\n", "c", "{ ", "}\n", "{d", "e} ", "{}", " % x { } y\n", "%", "\t", "\r\n", "include i1\n", "include\ti2 ", "include i3", "include % z\n i7\r\n" };
  all_strings(LX, 16, mc.thorough ? 6 : 5, mc.thorough ? 2 : 1);
  static const char *LI[] = { "a ", "b\n", "{ ", "} ", "include i1 ", "include i4\n", "include i5\n", "include i6\n", "include i8 ", "include i7\n" };
  all_strings(LI, 10, 5, mc.thorough || PROP == 12 ? 4 : 1);
  static const char *LE[] = { "a ", "b\n", "{ ", "} ", "include ", "include self\n", "include pingo ", "include none\n", "include i0\n", ", ", "a{", "}a " };
  all_strings(LE, 12, mc.thorough ? 5 : 4, mc.thorough ? 4 : 2);
  // sizes around every limit
  for (k = 0; k < 9; k++) for (n = 0; n < 60; n++) if (mc_group()) {
    static const long B[] = { 100, 1000, 4000, 8180, 16370, 32750, 65500, 69900, 100000, 119000, 130000, 139900, 139980, 140000, 140100, 160000, 279900, 280100, 300000, 400000 };
    for (i = 0; i < 20; i++) { if (!mc_case()) continue; long pad = B[i] + n * (i % 2 ? 3 : 1); mc_note("padding %ld of kind %d", pad, k); big(pad, k); }
  }
  if (PROP == 12) { settings(); values(); }
#if PROP == 13
  // kinds of errors in the simulator's own parameters
  static const struct { const char *s; int must; } ER[] = {
    { "", 1 }, { "\n", 1 }, { "% only a comment", 1 }, { "res_file r.srf\n", 1 }, { "EbNo_values { 1 }\n", 1 }, { "res_file r.srf EbNo_values { }", 1 }, { "res_file r.srf SNR_val_trn { }", 1 },
    { "res_file r.srf SNR_val_trn { 1 }", 1 }, { "res_file r.srf SNR_val_trn { 1 2 3 }", 1 }, { "res_file r.srf SNR_val_trn 1", 1 }, { "res_file r.srf EbNo_values 1", 1 }, { "res_file r.srf SNR_val_trn", 1 },
    { "res_file r.srf SNR_val_trn {", 1 }, { "res_file r.srf SNR_val_trn { 1", 1 }, { "res_file r.srf SNR_val_trn { 1 2", 1 }, { "res_file r.srf EbNo_values { 1", 1 }, { "res_file", 1 }, { "EbNo_values { 1 } res_file", 1 },
    { "res_file r.srf EbNo_values { 1 } min_trials_per_snr", 1 }, { "res_file r.srf EbNo_values { 1 } min_errors_per_snr", 1 }, { "res_file r.srf EbNo_values { 1 } ml_lb", 1 }, { "res_file r.srf EbNo_values { 1 } random_codeword", 1 },
    { "res_file r.srf EbNo_values { 1 } fixed_R", 1 }, { "res_file r.srf EbNo_values { 1 } ml_lb_hard", 1 }, { "res_file r.srf EbNo_values { nan }", 1 }, { "res_file r.srf EbNo_values { inf }", 1 }, { "res_file r.srf EbNo_values { 1e999 }", 1 },
    { "res_file r.srf SNR_val_trn { nan 3 }", 1 }, { "res_file r.srf EbNo_values { 1 } fixed_R nan", 1 }, { "res_file r.srf EbNo_values { 1 } fixed_R -1", 1 }, { "res_file r.srf EbNo_values { 1 } fixed_R inf", 1 },
    { "res_file r.srf EbNo_values { x }", 0 }, { "res_file r.srf SNR_val_trn { 1 x }", 0 }, { "res_file r.srf SNR_val_trn { 1 99999999999 }", 0 }, { "res_file r.srf SNR_val_trn { 1 -99999999999 }", 0 }, { "res_file r.srf SNR_val_trn { 1 0 }", 0 },
    { "res_file r.srf EbNo_values { 1 } min_trials_per_snr -5", 0 }, { "res_file r.srf EbNo_values { 1 } min_errors_per_snr -5", 0 }, { "res_file r.srf EbNo_values { 1 } min_trials_per_snr x", 0 }, { "res_file r.srf EbNo_values { 1 } min_trials_per_snr { 3 4 }", 0 },
    { "res_file r.srf EbNo_values { 1 } ml_lb maybe", 0 }, { "res_file r.srf EbNo_values { 1 } random_codeword { on }", 0 }, { "res_file r.srf EbNo_values { -1000 1000 }", 0 }, { "res_file r.srf EbNo_values { 1 } fixed_R 1e-300", 0 }, { "res_file r.srf EbNo_values { 1 } fixed_R 1e6", 0 },
    { "res_file r.srf EbNo_values { 1 } EbNo_values { 2 }", 0 }, { "res_file r.srf EbNo_values { 1 } SNR_val_trn { 2 2 }", 0 }, { "res_file { r.srf } EbNo_values { 1 }", 0 } };
  for (i = 0; i < (int)(sizeof(ER) / sizeof(ER[0])); i++) for (k = 0; k < 3; k++) if (mc_group() && mc_case()) {
    char b[600]; snprintf(b, sizeof(b), "%s%s%s", k == 1 ? "%\r\n" : k == 2 ? "RM_m 3 " : "", ER[i].s, k == 2 ? " % end" : "");
    mc_note("\"%s\"", esc(b)); put("t.spf", b, strlen(b));
    void *h = NULL; sim_init_params_ sp = { "t.spf", 5, 1 }; st_reset(4, 2); so_reset(); st_dec = dec; st_rand = st_rand_hash; nsn = 0;
    int rc = sim_init((sim_init_params *)&sp, &h); mc.evals++; mc_state(mc_h2(8000000 + i, k));
    if (ER[i].must && !rc) mc_fail("not-reported", "accepted");
    if (rc && ST.open_cnt) mc_fail("leak", "the codec instance is left open");
    if (!rc) sim_close(h);
  }
  // too many values; names of any length; every truncation and every replaced byte of valid files
  for (n = 1; n < 120; n++) for (k = 0; k < 3; k++) if (mc_group() && mc_case()) {
    static char b[90000]; int w = sprintf(b, "res_file r.srf %s { ", k ? "SNR_val_trn" : "EbNo_values");
    for (i = 0; i < n; i++) w += sprintf(b + w, k ? "%g 1 " : "%g ", i * (k == 2 ? 0.123456789 : 0.1)); w += sprintf(b + w, "}");
    mc_note("%ld SNR values, kind %d", n, k); put("t.spf", b, w);
    void *h = NULL; sim_init_params_ sp = { "t.spf", 5, 1 }; st_reset(4, 2); so_reset();
    int rc = sim_init((sim_init_params *)&sp, &h); mc.evals++; mc_state(mc_h2(8100000 + n, k));
    if ((rc == 0) != (n <= 50)) mc_fail("count", "%ld SNR values are %s", n, rc ? "rejected" : "accepted");
    if (!rc) { so_reset(); static char big_[70000]; sim_cur_res_str(h, big_); sim_state_str(h, big_); sim_close(h); }
  }
  for (n = 1; n < 1300; n += n < 950 ? 37 : 1) for (k = 0; k < 2; k++) if (mc_group() && mc_case()) {
    static char b[9000], nm[2000]; memset(nm, 'f', n); nm[n] = 0; if (k) for (i = 100; i < n; i += 100) nm[i] = '/';
    int w = sprintf(b, "EbNo_values { 1 }\nres_file %s\n", nm); mc_note("results file name of %ld characters, kind %d", n, k); put("t.spf", b, w);
    void *h = NULL; sim_init_params_ sp = { "t.spf", 5, 1 }; st_reset(4, 2); so_reset(); st_dec = dec; st_rand = st_rand_hash; nsn = 1; SN[0] = 1; fR = 0; cur = 0;
    int rc = sim_init((sim_init_params *)&sp, &h); mc.evals++; mc_state(mc_h2(8200000 + n, k));
    if (!rc) { while (sim_run(h) == RC_SIMUL_NOT_COMPLETED); so_reset(); int r = sim_save_res(h); if (r == 0 && !file_exists(nm)) mc_fail("name", "the results are saved elsewhere"); unlink(nm); sim_close(h); }
  }
  static const char *VF[] = { "res_file r.srf\nSNR_val_trn { 1 2 2.5 3 }\nml_lb on\nrandom_codeword on\n", "% c\r\nres_file r.srf\r\nEbNo_values {1 2}\r\nmin_trials_per_snr 3\r\ngrp { a b }\r\ninclude i1\r\nfixed_R 0.5",
    "include i1\nRM_m 3\nRM_r 1 res_file r.srf grp { p q\n include i3 } % x\n" };
  static const unsigned char JB[] = { 0, 1, 2, 9, 10, 13, 32, ',', '%', '{', '}', '0', '-', 'e', 127, 128, 255 };
  for (k = 0; k < 3; k++) for (n = 0; n <= (long)strlen(VF[k]); n++) if (mc_group()) for (i = -2; i < 2 * (int)sizeof(JB); i++) {
    if (!mc_case()) continue;
    char b[600]; long l = strlen(VF[k]); memcpy(b, VF[k], l);
    if (i == -2) l = n; else if (i == -1) { if (n >= l) continue; memmove(b + n, b + n + 1, l - n - 1); l--; }
    else if (i < (int)sizeof(JB)) { if (n >= l) continue; b[n] = JB[i]; } else { memmove(b + n + 1, b + n, l - n); b[n] = JB[i - sizeof(JB)]; l++; }
    mc_note("file %d, position %ld, change %d", k, n, i); put("t.spf", b, l);
    void *h = NULL; sim_init_params_ sp = { "t.spf", 5, 1 }; st_reset(4, 2); so_reset();
    int rc = sim_init((sim_init_params *)&sp, &h); mc.evals++; mc_state(mc_h2(8300000 + k * 1000 + n, i));
    if (rc && ST.open_cnt) mc_fail("leak", "the codec instance is left open");
    if (!rc) sim_close(h);
  }
#endif
  return mc_done();
}
