// C24: every simulation and code file shipped in work/, read by the real simulator with the real codec.
#include "mc.h"
#include "refcode.h"
#include <dirent.h>
#include <sys/stat.h>
typedef struct { char *spf_name; int ret_int; int dont_randomize; } sim_init_params_;
#include "interfaces/simul.h"
#define DEC_NEEDS_SIGMA
#ifdef CODEC_GLP
void cdc_set_csnrn(void *cdc, int csnrn);
#endif
int cdc_get_n(void *cdc); int cdc_get_k(void *cdc); void cdc_set_sg(void *cdc, double s); int enc_bpsk(void *cdc, int x[], double y[]); int dec_bpsk(void *cdc, double c[], int x[]);
#if defined(CODEC_DTRM0)
#define CN "dtrm0"
#elif defined(CODEC_DTRM1)
#define CN "dtrm1"
#elif defined(CODEC_GLP)
#define CN "dtrm_glp"
#else
#define CN "polar"
#endif
int __real_cdc_init(char p[], void **c);
static void *H; static char *P;
int __wrap_cdc_init(char p[], void **c) { free(P); P = strdup(p); int r = __real_cdc_init(p, c); H = r ? NULL : *c; return r; }
// the codec's parameters as read by the simulator
static char *TK[20000]; static int NT;
static void split(void) { static char *b; free(b); b = strdup(P); NT = 0; for (char *t = strtok(b, "\1"); t && NT < 20000; t = strtok(NULL, "\1")) TK[NT++] = t; }
static char *val(const char *key) { char *v = NULL; for (int i = 0; i + 1 < NT; i++) { if (!strcmp(TK[i], "{")) { while (i < NT && strcmp(TK[i], "}")) i++; continue; } if (!strcmp(TK[i], key)) v = TK[i + 1]; } return v; }
static int perms(int m, int *out, int max) { // numbers in the permutations group
  int n = 0; (void)m; for (int i = 0; i + 1 < NT; i++) if (!strcmp(TK[i], "permutations")) { n = 0; for (i += 2; i < NT && strcmp(TK[i], "}"); i++) if (n < max) out[n++] = atoi(TK[i]); } return n;
}
static char OUT[100000];
static const char *out(void) { fflush(stdout); int f = open("out.txt", O_RDONLY); ssize_t n = read(f, OUT, sizeof(OUT) - 1); close(f); OUT[n < 0 ? 0 : n] = 0; return OUT; }
static void *load(const char *spf) {
  void *h = NULL; sim_init_params_ sp = { (char *)spf, 1, 1 }; H = NULL;
  fflush(stdout); if (ftruncate(1, 0)) exit(3); lseek(1, 0, SEEK_SET);
  if (sim_init((sim_init_params *)&sp, &h)) { mc_fail("rejected", "%s is rejected: %.300s", spf, out()); return NULL; }
  if (!H) { mc_fail("codec", "%s: the codec was not initialised", spf); sim_close(h); return NULL; }
  split(); return h;
}
static void meaning(const char *nm, int m, int r) { // what the name says
  rcode c = { K_RM, m, r, NULL }; int n = 1 << m, k, l = 0, i, j; const char *q; static char msk[3000];
  if (!strcmp(CN, "polar")) {
    c.kind = K_POLAR; c.r = m; c.mask = val("info_bits_mask"); if (!c.mask || (int)strlen(c.mask) != n) { mc_fail("mask", "%s: the mask is not of length %d", nm, n); return; }
    if ((q = strstr(nm, "_ca"))) l = atoi(q + 3);
    if ((int)(val("ca_polar_crc") ? strlen(val("ca_polar_crc")) : 0) != l) mc_fail("crc", "%s: the CRC is not of %d bits", nm, l);
  } else if ((q = strstr(nm, "_tr"))) { // RM code with the border nodes of a hexadecimal mask (first nodes), all others kept
    unsigned long hx = strtoul(q + 3, NULL, 16); int nd = rc_nodes(K_RM, m, r), z = 0; (void)hx;
    char *mk = val("border_node_mask"); if (!mk || (int)strlen(mk) != nd) { mc_fail("mask", "%s: the mask is not of length %d", nm, nd); return; }
    for (i = 0; i < nd; i++) z += mk[i] == '0'; strcpy(msk, mk); c.mask = msk;
    int hz = __builtin_popcountl(hx); if (z != hz) mc_fail("mask", "%s: %d border nodes are masked out, the name says %d", nm, z, hz);
    if (!strcmp(CN, "dtrm0") || !strcmp(CN, "dtrm1")) c.mask = NULL;
  } else if (!strcmp(CN, "dtrm_glp")) { int nd = rc_nodes(K_RM, m, r); char *mk = val("border_node_mask"); if (!mk || (int)strlen(mk) != nd || strchr(mk, '0')) mc_fail("mask", "%s: not the mask of the full code", nm); }
  k = rc_k(&c) - l;
  if ((q = strstr(nm, "_k")) && atoi(q + 2) != k) mc_fail("name", "%s: k is %d", nm, k);
  if (cdc_get_n(H) != n || cdc_get_k(H) != k) { mc_fail("dimension", "%s: n=%d k=%d instead of %d %d", nm, cdc_get_n(H), cdc_get_k(H), n, k); return; }
  if (val("code_n") && atoi(val("code_n")) != n) mc_fail("comment", "%s states code_n %s", nm, val("code_n"));
  if (val("code_k") && atoi(val("code_k")) != k) mc_fail("comment", "%s states code_k %s", nm, val("code_k"));
  if ((q = strstr(nm, "_L")) && (!strcmp(CN, "dtrm_glp") || !strcmp(CN, "polar"))) { char *v = val(!strcmp(CN, "polar") ? "list_size" : "border_node_lsize"); if (!v || atoi(v) != atoi(q + 2)) mc_fail("list", "%s: the list size is %s", nm, v ? v : "missing"); }
  // permutations
  static int p[100000]; int np = perms(m, p, 100000), pn = np / m;
  if (np % m) mc_fail("permutations", "%s: %d numbers", nm, np);
  for (i = 0; i < pn; i++) { int s = 0; for (j = 0; j < m; j++) { if (p[i * m + j] < 0 || p[i * m + j] >= m) s = -1; else if (s >= 0) s |= 1 << p[i * m + j]; } if (s != n - 1) mc_fail("permutations", "%s: number %d is no permutation", nm, i); for (j = 0; j < i; j++) if (!memcmp(p + i * m, p + j * m, m * sizeof(int))) mc_fail("permutations", "%s: numbers %d and %d are equal", nm, j, i); }
  if (strstr(nm, "_P1")) { if (pn > 1) mc_fail("permutations", "%s: %d permutations", nm, pn); }
  else if (strstr(nm, "cyclic")) {
    if (pn != m) mc_fail("permutations", "%s: %d permutations instead of %d", nm, pn, m);
    for (i = 0; i < pn; i++) for (j = 0; j < m; j++) if (p[i * m + j] != (p[i * m] + j) % m) { mc_fail("permutations", "%s: number %d is not cyclic", nm, i); j = m; }
  } else if (strstr(nm, "PmCr")) {
    int f = 0, want = 1; for (i = 0; i < r; i++) want = want * (m - i) / (i + 1);
    if (pn != want) mc_fail("permutations", "%s: %d permutations instead of %d", nm, pn, want);
    static const int W[] = { 0, 1 }; for (int w = 0; w < 2; w++) { static char seen[1 << 12]; memset(seen, 0, sizeof(seen)); int ok = 1; for (i = 0; i < pn; i++) { int s = 0; for (j = 0; j < r; j++) s |= 1 << p[i * m + (W[w] ? m - 1 - j : j)]; if (seen[s]++) ok = 0; } f |= ok; }
    if (!f) mc_fail("permutations", "%s: some choice of %d variables appears twice", nm, r);
  } else if (strcmp(CN, "polar") && pn) mc_fail("permutations", "%s: %d permutations", nm, pn);
  // codewords and undistorted decoding: zero, ones, unit words, complements, pairs of neighbours
  int *x = (int *)malloc((k + 64) * sizeof(int)), *xd = (int *)malloc((k + 64) * sizeof(int)), *cw = (int *)malloc(n * sizeof(int)); double *y = (double *)malloc(n * sizeof(double));
  long cost = (long)n * (val("border_node_lsize") && strcmp(CN, "dtrm0") && strcmp(CN, "dtrm1") ? atoi(val("border_node_lsize")) : 8);
  int step = mc.thorough || k < 64 || cost < 20000 ? 1 : 7;
  static const double SG[] = { 0.5, 0.1 };
  for (int w = -2; w < 3 * k; w += w < 0 ? 1 : step) {
    for (i = 0; i < k; i++) x[i] = w == -2 ? 0 : w == -1 ? 1 : w < k ? i == w : w < 2 * k ? i != w - k : i == w - 2 * k || i == w - 2 * k + 1;
    cdc_set_sg(H, SG[w & 1]);
#ifdef CODEC_GLP
    cdc_set_csnrn(H, 0);
#endif
    int erc = enc_bpsk(H, x, y);
    memcpy(xd, x, k * sizeof(int)); if (l) rc_crc(x, k, val("ca_polar_crc"), xd + k);
    rc_enc(&c, xd, cw);
    for (i = 0; i < n; i++) if (y[i] != (cw[i] ? 1 : -1)) { mc_fail("codeword", "%s: word %d is encoded by another code", nm, w); break; }
    for (i = 0; i < k; i++) xd[i] = 9;
    int rc = dec_bpsk(H, y, xd);
    if (rc || erc || memcmp(x, xd, k * sizeof(int))) mc_fail("clean", "%s: undistorted word %d is not decoded (code %d, encoder returns %d)", nm, w, rc, erc);
    mc.evals++; mc.trans += 2; mc_tick(); mc_state(mc_h2(mc_hstr(9, nm), w + 10));
    if (mc.nfail >= 20) break;
  }
  free(x); free(xd); free(cw); free(y);
}
static int code(const char *f, int *m, int *r) { const char *q; if ((q = strstr(f, "rm0")) && sscanf(q, "rm%2d%2d", r, m) == 2) return 1; if ((q = strstr(f, "polar0")) && sscanf(q, "polar%2d", m) == 1) { *r = *m; return 2; } return 0; }
static int cmp(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static int list(const char *d, char **o, int max) { DIR *D = opendir(d); struct dirent *e; int n = 0; if (!D) return 0; while ((e = readdir(D)) && n < max) if (e->d_name[0] != '.') { char b[600]; snprintf(b, sizeof(b), "%s%s%s", strcmp(d, ".") ? d : "", strcmp(d, ".") ? "/" : "", e->d_name); o[n++] = strdup(b); } closedir(D); qsort(o, n, sizeof(char *), cmp); return n; }
static char *body(const char *fn) { FILE *f = fopen(fn, "rb"); char *b = (char *)malloc(200000); size_t n = fread(b, 1, 199999, f); b[n] = 0; fclose(f); return b; }
int main(int argc, char **argv) {
  mc_init(argc, argv);
  if (system("cp -r " WORK "/. w") || chdir("w")) { fprintf(stderr, "no copy of the work directory\n"); return 3; }
  if (!freopen("out.txt", "w+", stdout)) return 3;
  char *F[500]; int n, i, m, r, nspf = 0, t; struct stat st;
  mkdir("results", 0700);
  // simulation parameter files for this simulator
  n = list(".", F, 500);
  for (i = 0; i < n; i++) {
    char *e = strrchr(F[i], '.'); if (!e || strcmp(e, ".spf")) continue;
    if (!strstr(F[i], !strcmp(CN, "polar") ? "polar" : CN)) continue;
    nspf++;
    if (!mc_group() || !mc_case()) continue;
    mc_note("%s", F[i]); mc_sample("%s", F[i]);
    if (!code(F[i], &m, &r)) continue;
    void *h = load(F[i]); if (!h) continue;
    meaning(F[i], m, r);
    // a few trials are simulated and saved in the file named after the simulation
    char *rf = val("res_file"), w[600]; snprintf(w, sizeof(w), "results/%.*s.srf", (int)(e - F[i]), F[i]);
    if (!rf || strcmp(rf, w)) mc_fail("results", "the results file is '%s' instead of '%s'", rf ? rf : "", w);
    remove(w);
    t = time(NULL); (void)t; int rc = sim_run(h);
    if (rc != 0 && rc != RC_SIMUL_NOT_COMPLETED) mc_fail("run", "simulation gives code %d", rc);
    if (sim_save_res(h)) mc_fail("save", "%.300s", out());
    if (stat(w, &st)) mc_fail("results", "no results in %s", w); else { char *b = body(w), x[60]; snprintf(x, sizeof(x), "code_n %d", 1 << m); if (!strstr(b, x)) mc_fail("results", "no '%s' in %s", x, w); free(b); }
    sim_close(h); H = NULL;
  }
  if (mc_group() && mc_case()) { mc_note("number of simulation files"); mc.evals++; if (!nspf) mc_fail("none", "there is no simulation file for " CN); }
  // code files, with and without every permutation file for them
  char *R[500]; int nr = list(!strcmp(CN, "polar") ? "codes/polar" : "codes/rm", R, 400), j; if (strcmp(CN, "polar")) nr += list("codes/srm", R + nr, 90);
  for (i = 0; i < nr; i++) {
    if (strstr(R[i], "PmCr") || strstr(R[i], "cyclic")) continue;
    if (strstr(R[i], "_tr") && strcmp(CN, "dtrm_glp")) continue;
    for (j = -1; j < nr; j++) {
      char nm[700]; int m2, r2;
      if (j >= 0) { if (strcmp(CN, "dtrm_glp") || strstr(R[i], "_tr") || strstr(R[i], "polar")) continue; if (strstr(R[j], "cyclic")) { if (!code(R[i], &m, &r) || sscanf(strstr(R[j], "/p0") + 2, "%2d", &m2) != 1 || m2 != m) continue; } else if (strstr(R[j], "PmCr")) { if (!code(R[i], &m, &r) || !code(R[j], &m2, &r2) || m2 != m || r2 != r) continue; } else continue; }
      for (int L = 1; L <= 4; L += 3) for (int lay = 0; lay < 2; lay++) {
        if (!mc_group() || !mc_case()) continue;
        if (!code(R[i], &m, &r)) { mc_fail("name", "%s: no code in its name", R[i]); continue; }
        snprintf(nm, sizeof(nm), "%s %s", R[i], j >= 0 ? R[j] : ""); mc_note("%s list size %d, layout %d", nm, L, lay);
        FILE *f = fopen("t.spf", "w");
        if (lay) fprintf(f, "res_file results/t.srf\nEbNo_values { 1 }\nborder_node_lsize %d\nlist_size %d\n", L, L);
        fprintf(f, "include %s\n", R[i]); if (j >= 0) fprintf(f, lay ? "include %s" : "include %s\n", R[j]);
        if (!lay) fprintf(f, "res_file results/t.srf EbNo_values { 1 } border_node_lsize %d list_size %d", L, L);
        fclose(f);
        void *h = load("t.spf"); if (!h) continue;
        char *mk = val("border_node_mask");
        if (!strcmp(CN, "dtrm_glp") && !mk) mc_fail("mask", "%s: no mask", nm);
        meaning(nm, m, r);
        sim_close(h); H = NULL;
      }
    }
  }
  return mc_done();
}
