// C04..C07, C23: decoders against the reference successive cancellation (list) decoder.
#include "cdc.h"
#include "refdec.h"
#ifdef SMALL
#define MMAX(x) (th ? (x) - 1 : 6)
#else
#define MMAX(x) (x)
#endif

static struct { double sg, lo, hi; int weak; } prof[] = {
  { 0.7, 0.8, 1.2, 0 },    // near-equal reliabilities
  { 0.8, 0.05, 2.0, 0 },   // widely varying
  { 1.0, 0.7, 1.3, 3 },    // every third symbol weak
  { 0.3, 0.5, 1.5, 0 },    // strong: clipping active
  { 1.6, 0.005, 0.6, 5 },  // very noisy
};
static double amp(int p, int i) {
  if (prof[p].weak && i % prof[p].weak == 1) return mc_gen(p + 100, i, 0.01, 0.12);
  return mc_gen(p, i, prof[p].lo, prof[p].hi);
}
typedef struct { char spec[6000]; void *cdc; rd_ctx *rd; const char *crc; int n, k; int nst; int stL[50]; double stD[50]; rd_ctx *strd[50]; } cfg_t;
static double ties, erasures, wrong;

static const double *cur_c; static double cur_sg;
static char *fmtv(const double *v, int n) {
  static char b[4000]; int o = 0;
  for (int i = 0; i < n && o < 3800; i++) o += sprintf(b + o, "%.10g ", v[i]);
  return b;
}
// Reference outcome for a decode: possible? (variable list: stages)
static int ref_check(cfg_t *f, const double *c, double sg, const int *x, int rc, int *best, int *brc) {
  int n = f->n, i;
  double y[n];
  for (i = 0; i < n; i++) y[i] = rf_conv(c[i] * 2.0 / (sg * sg));
  if (!f->nst) return rd_check(f->rd, y, x, rc, f->crc, best, brc);
  // Stages: unambiguous runs only; an ambiguous stage is not compared.
  for (int s = 0; s < f->nst; s++) {
    int w[f->k], cw[n];
    int r = rd_check(f->strd[s], y, x, rc, f->crc, w, brc);
    if (f->strd[s]->ambiguous) return -1;
    memcpy(best, w, f->k * sizeof(int));
    rc_enc(&f->strd[s]->c, w, cw);
    double d = 0;
    for (i = 0; i < n; i++) { double t = c[i] - (cw[i] ? 1.0 : -1.0); d += t * t; }
    d /= sg * sg;
    if (fabs(d - f->stD[s]) < 1e-6) return -1;
    if (d < f->stD[s] || s == f->nst - 1) return r;
  }
  return -1;
}
static void one(cfg_t *f, const double *c0, double sg) {
  if (mc.nfail >= 20) return;
  int n = f->n, k = f->k, best[k + 1], brc = 0;
  double *c = (double *)malloc(n * sizeof(double));
  int *x = (int *)malloc(k * sizeof(int));
  memcpy(c, c0, n * sizeof(double));
  for (int i = 0; i < k; i++) x[i] = 99;
  cdc_set_sg(f->cdc, sg);
  int rc = dec_bpsk(f->cdc, c, x);
  mc.evals++; mc_tick();
  char b1[RD_NMAX + 1], b2[RD_NMAX + 1];
  if (memcmp(c, c0, n * sizeof(double))) mc_fail("input-modified", "%s: channel output changed by the decoder", f->spec);
  for (int i = 0; i < k; i++) if (x[i] != 0 && x[i] != 1) { mc_fail("nonbit", "%s sg=%g y=%s: decoded symbol %d is not a bit", f->spec, sg, fmtv(c0, n), i); free(c); free(x); return; }
  int r = ref_check(f, c0, sg, x, rc, best, &brc);
  if (r < 0) mc.skipped++;
  else if (r == 0) mc_fail("decision", "%s sg=%g y=%s: decoder returned %s (code %d), the definition gives %s (code %d)",
    f->spec, sg, fmtv(c0, n), bits2s(b1, x, k), rc, bits2s(b2, best, k), brc);
  if (f->rd->ambiguous) ties++;
  if (rc == 1) erasures++;
  if (mc.evals % 3001 == 1 && n <= 32) mc_sample("%s sg=%g y=%s-> %s code %d", f->spec, sg, fmtv(c0, n), bits2s(b1, x, k), rc);
  free(c); free(x);
}
static int cfg_open(cfg_t *f, const rcode *rc, const char *crc, int L, int np, const int *vperm) {
  f->cdc = cdc_open(f->spec);
  if (!f->cdc) { mc_fail("rejected", "valid configuration '%s' rejected", f->spec); return 0; }
  f->crc = crc; f->nst = 0;
  f->rd = rd_new(rc, L, np, vperm, mc_hstr(5, f->spec));
  f->n = 1 << rc->m; f->k = f->rd->k - (crc ? (int)strlen(crc) : 0);
  if (cdc_get_n(f->cdc) != f->n || cdc_get_k(f->cdc) != f->k) {
    mc_fail("dimension", "%s: n=%d k=%d, expected %d %d", f->spec, cdc_get_n(f->cdc), cdc_get_k(f->cdc), f->n, f->k);
    cdc_close(f->cdc); rd_free(f->rd); return 0;
  }
#ifdef CODEC_GLP
  cdc_set_csnrn(f->cdc, 0);
#endif
  return 1;
}
static void cfg_close(cfg_t *f) { cdc_close(f->cdc); rd_free(f->rd); }

// All sign patterns.
static void all_signs(cfg_t *f, int p, int step) {
  double c[f->n];
  for (long s = 0; s < (1L << f->n); s += step) {
    for (int i = 0; i < f->n; i++) c[i] = ((s >> i) & 1 ? 1 : -1) * amp(p, i);
    one(f, c, prof[p].sg);
  }
}
// Word w, flips of up to nf symbols.
static void flips(cfg_t *f, int p, const int *x, int nf, int step) {
  int cw[f->n], n = f->n, i, j;
  double c[n];
  rc_enc(&f->rd->c, x, cw);
  for (i = 0; i < n; i++) c[i] = (cw[i] ? 1 : -1) * amp(p, i);
  one(f, c, prof[p].sg);
  for (i = 0; i < n; i += step) {
    c[i] = -c[i]; one(f, c, prof[p].sg);
    if (nf > 1) for (j = 0; j < i; j += step) { c[j] = -c[j]; one(f, c, prof[p].sg); c[j] = -c[j]; }
    c[i] = -c[i];
  }
}
// All cyclic shifts of a fixed noise vector at given scales, on a word.
static void shifts(cfg_t *f, const int *x, double sg, int step) {
  int cw[f->n], n = f->n;
  double c[n];
  rc_enc(&f->rd->c, x, cw);
  for (int s = 0; s < n; s += step) {
    for (int i = 0; i < n; i++) {
      int a = (i + s) % n;
      double g = sqrt(-2 * log(mc_gen(31, a, 1e-9, 1))) * cos(6.283185307179586 * mc_gen(32, a, 0, 1));
      c[i] = (cw[i] ? 1 : -1) + sg * g;
    }
    one(f, c, sg);
  }
}
// Words of noise alone, much stronger than the decoder is told: reliabilities of very different sizes.
static void noise(cfg_t *f, double sg, double a, int num) {
  int n = f->n;
  double c[n];
  for (int s = 0; s < num; s++) {
    for (int i = 0; i < n; i++) c[i] = a * sqrt(-2 * log(mc_gen(33 + s, i, 1e-9, 1))) * cos(6.283185307179586 * mc_gen(77 + s, i, 0, 1));
    one(f, c, sg);
  }
}
#ifdef CODEC_DTRM1
// (1,m) codes of any length against the largest entry of the Hadamard transform.
static void hadamard(int m, int num) {
  int n = 1 << m, i, h, s, x[32], y[32];
  int *cw = (int *)malloc(n * sizeof(int)); double *c = (double *)malloc(n * sizeof(double)), *t = (double *)malloc(n * sizeof(double)), *c0 = (double *)malloc(n * sizeof(double));
  char b1[40], sp[100];
  rcode rc = { K_RM1, m, 1, NULL }; snprintf(sp, sizeof(sp), "RM_m %d RM_r 1", m);
  void *d = cdc_open(sp);
  if (!d) { mc_fail("rejected", "valid configuration '%s' rejected", sp); return; }
  for (s = 0; s < num; s++) {
    double sg = sqrt(n) * (0.7 + 0.1 * (s % 4)), a = s % 8 < 4 ? 0 : 1, best = 0, sum = 0; // pure noise or a word
    for (i = 0; i <= m; i++) x[i] = (s * 5 + i * (s / 8 + 1)) % 3 == 1;
    rc_enc(&rc, x, cw);
    for (i = 0; i < n; i++) c0[i] = c[i] = t[i] = a * (cw[i] ? 1 : -1) + sg * sqrt(-2 * log(mc_gen(41 + s, i, 1e-9, 1))) * cos(6.283185307179586 * mc_gen(91 + s, i, 0, 1));
    for (h = 1; h < n; h *= 2) for (i = 0; i < n; i++) if (!(i & h)) { double u = t[i], v = t[i + h]; t[i] = u + v; t[i + h] = u - v; }
    for (i = 0; i < n; i++) if (fabs(t[i]) > best) best = fabs(t[i]);
    for (i = 0; i <= m; i++) y[i] = 99;
    cdc_set_sg(d, sg);
    int r = dec_bpsk(d, c, y), bad = r != 0;
    mc.evals++; mc.trans += 2 * n; mc_tick();
    for (i = 0; i <= m; i++) if (y[i] != 0 && y[i] != 1) bad = 1;
    if (!bad) { rc_enc(&rc, y, cw); for (i = 0; i < n; i++) sum += cw[i] ? c0[i] : -c0[i]; }
    if (bad || sum < best * (1 - 1e-6)) mc_fail("decision", "%s sg=%g, noise word %d: decoder returned %s (code %d) of correlation %g, the best is %g", sp, sg, s, bits2s(b1, y, m + 1), r, sum, best);
    uint64_t q = m; for (i = 0; i <= m; i++) q = mc_h2(q, y[i]); mc_state(q);
    if (s == 3) mc_sample("%s sg=%g, noise word %d: %s of correlation %g", sp, sg, s, bits2s(b1, y, m + 1), sum);
  }
  cdc_close(d); free(cw); free(c); free(t); free(c0);
}
#endif
static void large(cfg_t *f, int np, int nf, int step) {
  int x[f->rd->k + 1], i, k = f->rd->k;
  for (int w = 0; w < 3; w++) {
    for (i = 0; i < k; i++) x[i] = w == 0 ? 0 : w == 1 ? 1 : (i * 5 % 3) == 1;
    if (f->crc) rc_crc(x, f->k, f->crc, x + f->k);
    for (int p = 0; p < np; p++) if (w == 0 || p == w) flips(f, p, x, w ? 1 : nf, step);
    shifts(f, x, 0.6, step); shifts(f, x, 0.9, step);
  }
}
#define BEGIN(...) { if (mc_group()) { mc_case(); static cfg_t f; sprintf(f.spec, __VA_ARGS__); mc_note("%s", f.spec);
#define END } }

int main(int argc, char **argv) {
  mc_init(argc, argv); mc_quiet();
  int th = mc.thorough;
#if defined(CODEC_DTRM0) || defined(CODEC_DTRM1)
#ifdef CODEC_DTRM0
  int kind = K_RM;
#else
  int kind = K_RM1;
#endif
  for (int m = 1; m <= MMAX(th ? 10 : 9); m++) for (int r = 1; r <= m; r++) for (int p = 0; p < 5; p++) {
    rcode rc = { kind, m, r, NULL };
    int parts = m == 4 ? 4 : 1;
    for (int part = 0; part < parts; part++)
    BEGIN("RM_m %d RM_r %d", m, r)
      if (cfg_open(&f, &rc, NULL, 1, 1, NULL)) {
        if (m <= 3) all_signs(&f, p, 1);
        else if (m == 4) { // all 2^16 patterns, in parts
          double c[16];
          for (long s = part; s < 65536; s += parts * (p == 0 || th ? 1 : 3)) {
            for (int i = 0; i < 16; i++) c[i] = ((s >> i) & 1 ? 1 : -1) * amp(p, i);
            one(&f, c, prof[p].sg);
          }
        } else {
          int x[1 << 12];
          for (int w = 0; w < 3; w++) {
            for (int i = 0; i < f.k; i++) x[i] = w == 0 ? 0 : w == 1 ? 1 : (i * 5 % 3) == 1;
            flips(&f, p, x, (m <= 5 || (m == 6 && w == 0) || th) && m <= 7 ? 2 : 1, m >= 9 && !th ? 7 : 1);
            if (p < 3) shifts(&f, x, p == 0 ? 0.5 : p == 1 ? 0.75 : 1.0, m >= 9 && !th ? 7 : 1);
          }
          noise(&f, 0.5 + 0.2 * p, 1.0, m >= 8 && !th ? 60 : 200);
        }
        cfg_close(&f);
      }
    END
  }
#if defined(CODEC_DTRM1)
  if (FMT != F_RHO5) for (int m = 5; m <= (th ? 16 : 14); m++) for (int p = 0; p < 4; p++) if (mc_group()) { mc_case(); mc_note("RM_m %d RM_r 1", m); hadamard(m, (th ? 64 : 8) * (m < 12 ? 2 : 1)); }
#endif
#if defined(CODEC_DTRM0) && !defined(SMALL)
  for (int m = th ? 11 : 10; m <= 12; m++) for (int q = 0; q < 5; q++) {
    int r = q == 0 ? 1 : q == 1 ? 2 : q == 2 ? m / 2 : q == 3 ? m - 2 : m - 1;
    rcode rc = { kind, m, r, NULL };
    BEGIN("RM_m %d RM_r %d", m, r)
      if (cfg_open(&f, &rc, NULL, 1, 1, NULL)) { large(&f, th ? 5 : 3, 1, (1 << m) / (th ? 16 : 4)); for (int s = 0; s < 4; s++) noise(&f, 0.5 + 0.2 * s, 1.0, 4); cfg_close(&f); }
    END
  }
#endif
#endif
#if defined(CODEC_GLP)
  static const int Ls[] = { 1, 2, 3, 4, 5, 7, 8, 16, 33 };
  static const char *mask; char mb[5000];
  // n = 8: RM(2,3) all masks and list sizes.
  for (int m = 3; m <= 4; m++) for (int r = 2; r < m; r++) {
    int nodes = rc_nodes(K_RM, m, r);
    for (long mk = 1; mk < (1L << nodes); mk++) for (int li = 0; li < 9; li++) {
      if (m == 4 && !th && li > 0 && (mk + li) % 3 && mk != (1L << nodes) - 1) continue;
      for (int i = 0; i < nodes; i++) mb[i] = '0' + ((mk >> i) & 1);
      mb[nodes] = 0; mask = mb;
      rcode rc = { K_RM, m, r, mask };
      BEGIN("RM_m %d RM_r %d border_node_mask %s border_node_lsize %d", m, r, mask, Ls[li])
        if (cfg_open(&f, &rc, NULL, Ls[li], 1, NULL)) {
          if (m == 3) for (int p = 0; p < 5; p++) all_signs(&f, p, 1);
          else if (th) for (int p = 0; p < 5; p++) all_signs(&f, p, mk == (1L << nodes) - 1 ? 1 : 7);
          else all_signs(&f, (mk + li) % 5, mk == (1L << nodes) - 1 ? 13 : 97);
          cfg_close(&f);
        }
      END
    }
  }
  // Permutation sets: n = 8, all pairs and all triples of permutations of 3 variables; n = 16: selected sets.
  static const int P3[6][3] = { {0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0} };
  for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) for (int c3 = -1; c3 < 6; c3++) for (int L = 1; L <= 5; L += 2) {
    int vp[9], np = c3 < 0 ? 2 : 3;
    memcpy(vp, P3[a], 12); memcpy(vp + 3, P3[b], 12); if (c3 >= 0) memcpy(vp + 6, P3[c3], 12);
    if (c3 < 0 && a == b) np = 1;
    rcode rc = { K_RM, 3, 2, NULL };
    BEGIN("RM_m 3 RM_r 2 border_node_mask 111 border_node_lsize %d permutations { ", L)
      for (int i = 0; i < np * 3; i++) sprintf(f.spec + strlen(f.spec), "%d ", vp[i]);
      strcat(f.spec, "}"); mc_note("%s", f.spec);
      if (cfg_open(&f, &rc, NULL, L, np, vp)) {
        if (np == 1) for (int p = 0; p < 5; p++) all_signs(&f, p, 1); else all_signs(&f, (a + b + c3 + 1) % 5, th || np == 2 ? 1 : 3);
        cfg_close(&f);
      }
    END
  }
  // All 24 permutations of 4 variables alone, cyclic / prefix sets, more permutations than list entries.
  int P4[24][4], n4 = 0;
  for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (int c3 = 0; c3 < 4; c3++) for (int d = 0; d < 4; d++)
    if (a != b && a != c3 && a != d && b != c3 && b != d && c3 != d) { P4[n4][0] = a; P4[n4][1] = b; P4[n4][2] = c3; P4[n4][3] = d; n4++; }
  for (int r = 2; r < 4; r++) for (int q = 0; q < 24 + 12; q++) for (int li = 0; li < 4; li++) {
    static const int L4[] = { 1, 2, 6, 16 };
    int vp[24 * 4], np = q < 24 ? 1 : q < 30 ? 2 + (q - 24) : q < 34 ? 4 : 24, i;
    for (i = 0; i < np; i++) memcpy(vp + 4 * i, P4[q < 24 ? q : q < 30 ? (i * 7 + q) % 24 : q < 34 ? (i * 9 + (q - 30) * 2) % 24 : (i * (q == 34 ? 1 : 5)) % 24], 16);
    rcode rc = { K_RM, 4, r, NULL };
    BEGIN("RM_m 4 RM_r %d border_node_mask %s border_node_lsize %d permutations { ", r, r == 2 ? "111111" : "1111", L4[li])
      for (i = 0; i < np * 4; i++) sprintf(f.spec + strlen(f.spec), "%d ", vp[i]);
      strcat(f.spec, "}"); mc_note("%s", f.spec);
      if (cfg_open(&f, &rc, NULL, L4[li], np, vp)) {
        all_signs(&f, (q + li) % 5, th ? 37 : np > 4 ? 1009 : 257);
        cfg_close(&f);
      }
    END
  }
  // Large lists.
  for (int q = 0; q < 24; q++) for (int t = 0; t < 3; t++) {
    static const char *LM[3] = { "111", "011", "110111" };
    int L = (64 << (q / 3)) + q % 3 - 1;
    rcode rc = { K_RM, t < 2 ? 3 : 4, 2, LM[t] };
    BEGIN("RM_m %d RM_r 2 border_node_mask %s border_node_lsize %d", rc.m, LM[t], L)
      if (cfg_open(&f, &rc, NULL, L, 1, NULL)) { for (int p = 0; p < 5; p++) all_signs(&f, p, t < 2 ? 7 : L > 600 ? 9973 : 4001); cfg_close(&f); }
    END
  }
  // Noise words of all reliabilities; the nodes with all words are not the last ones.
  for (int v = 0; v < 64; v++) {
    static const struct { int m, r; const char *mask; } C[] = { { 4, 3, "1111" }, { 5, 4, "11111" }, { 5, 3, "1111111111" }, { 4, 3, "1110" } };
    static const int LL[] = { 4, 5, 6, 8, 11, 16, 24, 32 };
    rcode rc = { K_RM, C[v % 4].m, C[v % 4].r, C[v % 4].mask }; int L = LL[v / 4 % 8];
    BEGIN("RM_m %d RM_r %d border_node_mask %s border_node_lsize %d", rc.m, rc.r, rc.mask, L)
      if (cfg_open(&f, &rc, NULL, L, 1, NULL)) { noise(&f, v < 32 ? 0.9 : 1.5, 1.0, (th ? 20000 : 1500) / (L / 8 + 1)); cfg_close(&f); }
    END
  }
  // Many words in a long list, restrictions that come last.
  for (int v = 0; v < 40; v++) {
    static const struct { int m, r; const char *mask; } C[] = { { 5, 2, "1111111000" }, { 5, 3, "1111111100" }, { 5, 3, "1111110100" }, { 5, 3, "1111111111" }, { 5, 4, "11110" } };
    static const int LL[] = { 300, 513, 600, 1000, 1500, 2000, 2049, 2500 };
    rcode rc = { K_RM, C[v % 5].m, C[v % 5].r, C[v % 5].mask };
    if ((int)strlen(rc.mask) != rc_nodes(K_RM, rc.m, rc.r)) { mc_fail("harness", "mask"); break; }
    BEGIN("RM_m %d RM_r %d border_node_mask %s border_node_lsize %d", rc.m, rc.r, rc.mask, LL[v / 5])
      if (cfg_open(&f, &rc, NULL, LL[v / 5], 1, NULL)) { noise(&f, 0.9, 1.0, (th ? 100 : 12) / (LL[v / 5] / 1000 + 1)); cfg_close(&f); }
    END
  }
  // Variable list size.
  for (int v = 0; v < 24; v++) {
    static const int sL[4][3] = { {1,2,4}, {1,4,8}, {2,3,16}, {1,1,2} };
    static const double sD[6][3] = { {2,4,8}, {0.5,6,1}, {8,8,8}, {0,0,0}, {3,1,20}, {12,12,12} };
    rcode rc = { K_RM, 4, 2, v % 2 ? "111111" : "011111" };
    int a = v % 4, b = v % 6, ns = 1 + v % 3;
    BEGIN("RM_m 4 RM_r 2 border_node_mask %s border_node_lsize 16 use_variable_list on distance_threshold { ", rc.mask)
      for (int s = 0; s < ns; s++) sprintf(f.spec + strlen(f.spec), "%d %g ", sL[a][s], sD[b][s]);
      strcat(f.spec, "}"); mc_note("%s", f.spec);
      if (cfg_open(&f, &rc, NULL, 16, 1, NULL)) {
        f.nst = ns;
        for (int s = 0; s < ns; s++) { f.stL[s] = sL[a][s]; f.stD[s] = sD[b][s]; f.strd[s] = rd_new(&rc, sL[a][s], 1, NULL, mc_hstr(s, f.spec)); }
        for (int p = 0; p < 5; p++) all_signs(&f, p, th ? 23 : 211);
        for (int s = 0; s < ns; s++) rd_free(f.strd[s]);
        cfg_close(&f);
      }
    END
  }
  // Variable lists of up to 50 stages for other codes, with permutations.
  for (int v = 0; v < 48; v++) {
    static const struct { int m, r; const char *mask; } C[] = { { 3, 2, "111" }, { 3, 2, "101" }, { 4, 3, "1111" }, { 5, 2, "1111111111" }, { 5, 3, "0111111111" }, { 6, 2, "011110111111111" } };
    const int m = C[v % 6].m, ns = (const int[]){ 1, 2, 4, 8, 50, 3 }[v / 8], np = v % 6 == 0 || v % 6 == 2 || v % 6 == 3 ? v % 4 : 0;
    rcode rc = { K_RM, m, C[v % 6].r, C[v % 6].mask }; int vp[15];
    if ((int)strlen(rc.mask) != rc_nodes(K_RM, m, rc.r)) { mc_fail("harness", "mask"); break; }
    for (int i = 0; i < np; i++) for (int j = 0; j < m; j++) vp[i * m + j] = (j + i * (v % 2 + 1)) % m;
    BEGIN("RM_m %d RM_r %d border_node_mask %s border_node_lsize 9 use_variable_list on distance_threshold { ", m, rc.r, rc.mask)
      for (int s = 0; s < ns; s++) { f.stL[s] = 1 + (s * (v % 3 + 1) + v % 5) % 9; f.stD[s] = (v + s * 3) % 7 * (1 << m) / 8.0 - 0.3; sprintf(f.spec + strlen(f.spec), "%d %g ", f.stL[s], f.stD[s]); }
      strcat(f.spec, "} ");
      if (np) { strcat(f.spec, "permutations { "); for (int i = 0; i < np * m; i++) sprintf(f.spec + strlen(f.spec), "%d ", vp[i]); strcat(f.spec, "}"); }
      mc_note("%s", f.spec);
      if (cfg_open(&f, &rc, NULL, 9, np ? np : 1, np ? vp : NULL)) {
        f.nst = ns;
        for (int s = 0; s < ns; s++) f.strd[s] = rd_new(&rc, f.stL[s], np ? np : 1, np ? vp : NULL, mc_hstr(s, f.spec));
        for (int p = 0; p < 5; p++) if (m == 3) all_signs(&f, p, 1); else if (m == 4) all_signs(&f, p, th ? 37 : 499);
        if (m > 4) large(&f, th ? 5 : 3, 1, th ? 1 : 4);
        for (int s = 0; s < ns; s++) rd_free(f.strd[s]);
        cfg_close(&f);
      }
    END
  }
  // Stages whose list is smaller than that of a stage before, decided on words with many errors.
  for (int v = 0; v < 48; v++) {
    static const struct { int m, r; const char *mask; } C[] = { { 4, 2, "111111" }, { 4, 2, "011111" }, { 5, 2, "1111111111" }, { 5, 3, "1111111111" } };
    static const int sL[6][5] = { {2,1,9,0}, {9,2,1,0}, {3,1,2,9,0}, {6,1,1,2,9}, {4,4,1,8,0}, {5,3,1,9,0} };
    const int m = C[v % 4].m, *L = sL[v / 8]; int ns = 0;
    rcode rc = { K_RM, m, C[v % 4].r, C[v % 4].mask };
    while (ns < 5 && L[ns]) ns++;
    BEGIN("RM_m %d RM_r %d border_node_mask %s border_node_lsize 9 use_variable_list on distance_threshold { ", m, rc.r, rc.mask)
      for (int s = 0; s < ns; s++) { f.stL[s] = L[s]; f.stD[s] = (v / 4 % 2 ? 1.0 / (2 + s) : (s + 1.0) / ns) * (1 << m) * 1.1 + 0.03; if (s == 0) f.stD[s] *= 0.1; sprintf(f.spec + strlen(f.spec), "%d %.17g ", L[s], f.stD[s]); }
      strcat(f.spec, "}"); mc_note("%s", f.spec);
      if (cfg_open(&f, &rc, NULL, 9, 1, NULL)) {
        int x[40];
        f.nst = ns;
        for (int s = 0; s < ns; s++) f.strd[s] = rd_new(&rc, f.stL[s], 1, NULL, mc_hstr(s, f.spec));
        for (int w = 0; w < 2; w++) {
          for (int i = 0; i < f.k; i++) x[i] = w ? (i * 5 % 3) == 1 : 0;
          for (int q = 6; q <= 13; q++) shifts(&f, x, q * 0.1, 1);
        }
        if (m == 4) for (int p = 0; p < 5; p++) all_signs(&f, p, th ? 37 : 499);
        for (int s = 0; s < ns; s++) rd_free(f.strd[s]);
        cfg_close(&f);
      }
    END
  }
  // Longer codes.
  for (int m = 5; m <= MMAX(th ? 9 : 8); m++) for (int r = 2; r < m; r++) for (int li = 0; li < 5; li++) for (int mk = 0; mk < 4; mk++) {
    static const int LL[] = { 1, 2, 5, 16, 32 };
    int nodes = rc_nodes(K_RM, m, r);
    if (nodes > 1000) continue;
    if (m > 6 && !th && (li * 4 + mk + r) % (m == 7 ? 3 : 10)) continue;
    for (int i = 0; i < nodes; i++) mb[i] = '0' + (mk == 0 ? 1 : mk == 1 ? i >= m - 1 : mk == 2 ? (i % 3 != 0) : (i != nodes - 1));
    mb[nodes] = 0;
    rcode rc = { K_RM, m, r, mb };
    BEGIN("RM_m %d RM_r %d border_node_mask %s border_node_lsize %d", m, r, mb, LL[li])
      if (cfg_open(&f, &rc, NULL, LL[li], 1, NULL)) {
        large(&f, th ? 5 : 2, (m == 5 && LL[li] < 6) ? 2 : 1, m <= 5 ? 1 : m == 6 ? (th ? 1 : 4) : (th ? 8 : 32));
        cfg_close(&f);
      }
    END
  }
  // Permutations of more variables: cyclic, all that put two variables last, pseudorandom; fewer and more list entries than permutations.
  for (int m = 5; m <= (th ? 8 : 7); m++) for (int r = 2; r < m; r++) for (int ps = 0; ps < 4; ps++) for (int li = 0; li < 3; li++) {
    static const int LL[] = { 1, 3, 12 };
    static int vp[64 * 8]; int np = 0, i, j, k;
    if (m > 5 && !th && (r + ps + li) % 3) continue;
    if (ps == 0) { for (np = 0; np < m; np++) for (j = 0; j < m; j++) vp[np * m + j] = (np + j) % m; }
    else if (ps == 1) { for (i = 0; i < m; i++) for (j = 0; j < i; j++, np++) { int o = 0; for (k = 0; k < m; k++) if (k != i && k != j) vp[np * m + o++] = k; vp[np * m + o] = j; vp[np * m + o + 1] = i; } }
    else { // a chain of transpositions, one permutation not its own inverse after another
      int t[8]; for (j = 0; j < m; j++) t[j] = j;
      for (np = 0; np < (ps == 2 ? 1 : 5); np++) { for (j = 0; j < m; j++) { int a = (j * 3 + np * 5 + m + r) % m, x = t[j]; t[j] = t[a]; t[a] = x; } memcpy(vp + np * m, t, m * sizeof(int)); }
    }
    int nodes = rc_nodes(K_RM, m, r); memset(mb, '1', nodes); mb[nodes] = 0;
    rcode rc = { K_RM, m, r, NULL };
    BEGIN("RM_m %d RM_r %d border_node_lsize %d border_node_mask %s permutations { ", m, r, LL[li], mb)
      for (i = 0; i < np * m; i++) sprintf(f.spec + strlen(f.spec), "%d ", vp[i]);
      strcat(f.spec, "}"); mc_note("%s", f.spec);
      if (cfg_open(&f, &rc, NULL, LL[li], np, vp)) { large(&f, th ? 5 : 2, 1, m == 5 ? 4 : (1 << m) / (th ? 16 : 4)); cfg_close(&f); }
    END
  }
#ifndef SMALL
  for (int m = 9; m <= 11; m++) for (int q = 0; q < 4; q++) for (int li = 0; li < 3; li++) {
    int r = q == 0 ? 2 : q == 1 ? m / 2 : q == 2 ? m - 2 : m - 1, nodes = rc_nodes(K_RM, m, r);
    for (int i = 0; i < nodes; i++) mb[i] = '0' + (li == 0 ? 1 : li == 1 ? i >= m - 1 : i % 3 != 0);
    mb[nodes] = 0;
    rcode rc = { K_RM, m, r, mb };
    BEGIN("RM_m %d RM_r %d border_node_mask %s border_node_lsize %d", m, r, mb, 1 << li)
      if (cfg_open(&f, &rc, NULL, 1 << li, 1, NULL)) { large(&f, th ? 5 : 2, 1, (1 << m) / (th ? 4 : 1)); cfg_close(&f); }
    END
  }
#endif
#endif
#if defined(CODEC_POLAR)
  char mb[5000];
  static const int Ls[] = { 1, 2, 3, 4, 6, 8, 11, 32 };
  static const char *crcs[] = { NULL, "1", "0", "11", "01", "101", "011", "1101" };
  for (int m = 1; m <= 3; m++) for (long mk = 1; mk < (1L << (1 << m)); mk++) for (int ci = 0; ci < 8; ci++) {
    int n = 1 << m, kk = __builtin_popcountl(mk);
    if (crcs[ci] && kk < 2 * (int)strlen(crcs[ci])) continue;
    for (int i = 0; i < n; i++) mb[i] = '0' + ((mk >> i) & 1);
    mb[n] = 0;
    rcode rc = { K_POLAR, m, m, mb };
    int go = mc_group();
    for (int li = 0; go && li < 8; li++) {
      if (m == 3 && !th && ((mk * 7 + ci * 3 + li) % 4)) continue;
      if (!mc_case()) continue;
      static cfg_t f;
      if (crcs[ci]) sprintf(f.spec, "c_m %d info_bits_mask %s ca_polar_crc %s list_size %d", m, mb, crcs[ci], Ls[li]);
      else sprintf(f.spec, "c_m %d info_bits_mask %s list_size %d", m, mb, Ls[li]);
      mc_note("%s", f.spec);
      if (cfg_open(&f, &rc, crcs[ci], Ls[li], 1, NULL)) {
        if (m < 3 || th) for (int p = 0; p < 5; p++) all_signs(&f, p, 1);
        else { all_signs(&f, (mk + li) % 5, 1); all_signs(&f, (mk / 5 + ci) % 5, 5); }
        cfg_close(&f);
      }
    }
  }
  // Large lists.
  for (int q = 0; q < 24; q++) for (int t = 0; t < 4; t++) {
    static const char *LM[4] = { "0111", "1111", "00010111", "01111111" };
    int L = (64 << (q / 3)) + q % 3 - 1, m = t < 2 ? 2 : 3; const char *crc = t % 2 ? (t == 1 ? "1" : "101") : NULL;
    rcode rc = { K_POLAR, m, m, LM[t] };
    BEGIN("c_m %d info_bits_mask %s list_size %d", m, LM[t], L)
      if (crc) sprintf(f.spec + strlen(f.spec), " ca_polar_crc %s", crc);
      mc_note("%s", f.spec);
      if (cfg_open(&f, &rc, crc, L, 1, NULL)) { for (int p = 0; p < 5; p++) all_signs(&f, p, m == 2 ? 1 : 17); cfg_close(&f); }
    END
  }
  // Many words in a long list, restrictions that come last.
  for (int v = 0; v < 40; v++) {
    static const char *LM[5] = { "1111111111110000", "1111111111101000", "1111111111111111", "11111111111101110110100010000000", "11111111111111100000000000000001" };
    static const int LL[] = { 300, 513, 600, 1000, 1500, 2000, 2049, 2500 };
    rcode rc = { K_POLAR, v % 5 < 3 ? 4 : 5, v % 5 < 3 ? 4 : 5, LM[v % 5] }; const char *crc = (v / 5 + v) % 3 == 1 ? "1101" : NULL;
    BEGIN("c_m %d info_bits_mask %s list_size %d", rc.m, rc.mask, LL[v / 5])
      if (crc) sprintf(f.spec + strlen(f.spec), " ca_polar_crc %s", crc);
      if (cfg_open(&f, &rc, crc, LL[v / 5], 1, NULL)) { noise(&f, 0.9, 1.0, (th ? 100 : 12) / (LL[v / 5] / 1000 + 1)); cfg_close(&f); }
    END
  }
  // n = 16: masks by index weight and range, and all single/double frozen or unfrozen sets.
  static char masks[400][20]; int nm = 0;
  for (int t = 0; t < 16; t++) { for (int i = 0; i < 16; i++) masks[nm][i] = '0' + (i >= t); nm++; }
  for (int t = 1; t <= 4; t++) { for (int i = 0; i < 16; i++) masks[nm][i] = '0' + (__builtin_popcount(i) >= t); nm++; }
  for (int a = 0; a < 16; a++) for (int b = 0; b <= a; b++) { for (int i = 0; i < 16; i++) masks[nm][i] = '0' + (i != a && i != b); nm++; }
  for (int a = 0; a < 16; a++) for (int b = 0; b < a; b++) { for (int i = 0; i < 16; i++) masks[nm][i] = '0' + (i == a || i == b); nm++; }
  for (int q = 0; q < nm; q++) for (int li = 0; li < 8; li++) {
    if (!th && (q + li) % 4) continue;
    const char *crc = (q + li) % 3 == 0 ? NULL : crcs[1 + (q + li / 2) % 7];
    int kk = 0; for (int i = 0; i < 16; i++) kk += masks[q][i] == '1';
    if (crc && kk < 2 * (int)strlen(crc)) crc = NULL;
    rcode rc = { K_POLAR, 4, 4, masks[q] };
    BEGIN("c_m 4 info_bits_mask %s list_size %d", masks[q], Ls[li])
      if (crc) sprintf(f.spec + strlen(f.spec), " ca_polar_crc %s", crc);
      mc_note("%s", f.spec);
      if (cfg_open(&f, &rc, crc, Ls[li], 1, NULL)) {
        for (int p = 0; p < 5; p++) all_signs(&f, p, th ? 53 : 401);
        cfg_close(&f);
      }
    END
  }
  for (int m = 5; m <= MMAX(th ? 9 : 8); m++) for (int t = 0; t < 3; t++) for (int ci = 0; ci < 4; ci++) for (int li = 0; li < 5; li++) {
    static const int LL[] = { 1, 2, 5, 8, 32 };
    static const char *cc[] = { NULL, "110011", "11010101", "1000000000000101" };
    int n = 1 << m;
    if (m > 6 && !th && (li * 4 + ci + t) % 4) continue;
    // polarization-like order: weight with index as a tie break
    for (int i = 0; i < n; i++) {
      double w = 0; for (int b = 0; b < m; b++) if ((i >> b) & 1) w += pow(1.19, b);
      double tot = 0; for (int b = 0; b < m; b++) tot += pow(1.19, b);
      mb[i] = '0' + (w >= tot * (t == 0 ? 0.42 : t == 1 ? 0.55 : 0.66));
    }
    mb[n] = 0;
    int kk = 0; for (int i = 0; i < n; i++) kk += mb[i] == '1';
    if (cc[ci] && kk < 2 * (int)strlen(cc[ci])) continue;
    rcode rc = { K_POLAR, m, m, mb };
    BEGIN("c_m %d info_bits_mask %s list_size %d", m, mb, LL[li])
      if (cc[ci]) sprintf(f.spec + strlen(f.spec), " ca_polar_crc %s", cc[ci]);
      mc_note("%s", f.spec);
      if (cfg_open(&f, &rc, cc[ci], LL[li], 1, NULL)) {
        large(&f, th ? 5 : 2, (m == 5 && LL[li] < 6) ? 2 : 1, m <= 5 ? 1 : m == 6 ? (th ? 1 : 4) : (th ? 8 : 32));
        cfg_close(&f);
      }
    END
  }
  // Lists much longer than usual where the first candidate with a fitting CRC is far down the list.
  for (int m = 5; m <= (th ? 7 : 6); m++) for (int li = 0; li < 5; li++) for (int t = 0; t < 3; t++) for (int ci = 0; ci < 3; ci++) {
    static const int LL[] = { 33, 64, 100, 200, 257 };
    static const char *cc[] = { "110011", "11010101", "100000101" };
    int n = 1 << m;
    double tot = 0; for (int b = 0; b < m; b++) tot += pow(1.19, b);
    for (int i = 0; i < n; i++) { double w = 0; for (int b = 0; b < m; b++) if ((i >> b) & 1) w += pow(1.19, b); mb[i] = '0' + (w >= tot * (t == 0 ? 0.42 : t == 1 ? 0.5 : 0.58)); }
    mb[n] = 0;
    int kk = 0; for (int i = 0; i < n; i++) kk += mb[i] == '1';
    if (kk < 2 * (int)strlen(cc[ci])) continue;
    rcode rc = { K_POLAR, m, m, mb };
    BEGIN("c_m %d info_bits_mask %s ca_polar_crc %s list_size %d", m, mb, cc[ci], LL[li])
      if (cfg_open(&f, &rc, cc[ci], LL[li], 1, NULL)) {
        int x[130];
        for (int i = 0; i < f.k; i++) x[i] = (i * 5 % 3) == 1;
        rc_crc(x, f.k, f.crc, x + f.k);
        for (int q = 0; q < 3; q++) shifts(&f, x, 0.8 + 0.25 * q, th ? 1 : m == 5 ? 2 : 4);
        cfg_close(&f);
      }
    END
  }
#ifndef SMALL
  for (int m = 9; m <= 11; m++) for (int t = 0; t < 3; t++) for (int li = 0; li < 3; li++) {
    int n = 1 << m; const char *crc = li == 0 ? NULL : li == 1 ? "1000000000000101" : "11010101";
    double tot = 0; for (int b = 0; b < m; b++) tot += pow(1.19, b);
    for (int i = 0; i < n; i++) { double w = 0; for (int b = 0; b < m; b++) if ((i >> b) & 1) w += pow(1.19, b); mb[i] = '0' + (w >= tot * (t == 0 ? 0.42 : t == 1 ? 0.55 : 0.7)); }
    mb[n] = 0;
    rcode rc = { K_POLAR, m, m, mb };
    BEGIN("c_m %d info_bits_mask %s list_size %d", m, mb, 1 << li)
      if (crc) sprintf(f.spec + strlen(f.spec), " ca_polar_crc %s", crc);
      mc_note("%s", f.spec);
      if (cfg_open(&f, &rc, crc, 1 << li, 1, NULL)) { large(&f, th ? 5 : 2, 1, n / (th ? 4 : 1)); cfg_close(&f); }
    END
  }
#endif
#endif
  mc_stat("ties", ties); mc_stat("erasures", erasures);
  return mc_done();
}
