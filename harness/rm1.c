// C05, C23: the stand-alone first-order decoders of rm1_ml/ in each format, against the word of maximum correlation.
#include "cdc.h"
#include "refcode.h"
// Each is checked as far as the library has it.
__attribute__((weak)) int rm1_dec_sh(int, double *, int *), rm1_dec_sh_finp(int, double *, int *), rm1_dec_sh_dotp(int, double *, int *), rm1_dec_lst(int, double *, int, int *);
#ifdef RHO
#define NF 3
#else
#define NF 2
#endif
static const char *FN[] = { "rm1_dec_sh", "rm1_dec_sh_finp", "rm1_dec_sh_dotp", "rm1_dec_lst" };
static int m, n; static signed char book[1 << 9][256];
#ifdef MINSUM
static double lnp(int b, double e) { if (b) e = -e; return (e > 0 ? 0 : e) - log1p(exp(-fabs(e))); }
// Probability logarithm the min-sum recursion gives to a word; e: reliability of 0.
static double metric(const double *e0, const int *x) {
  double e[256], r = 0; int h = n, i, j; memcpy(e, e0, n * sizeof(double));
  for (i = 0; i < m; i++) { h /= 2;
    for (j = 0; j < h; j++) { double a = e[j], b = e[j + h], q = fmin(fabs(a), fabs(b)); r += lnp(x[i], (a < 0) != (b < 0) ? -q : q); e[j] = b + (x[i] ? -a : a); } }
  return r + lnp(x[m], e[0]);
}
#endif
static void run(const double *c0, const char *what) {
  int f, i, w; double b = -1e9; 
  for (w = 0; w < 2 * n; w++) { double s = 0; for (i = 0; i < n; i++) s += book[w][i] * c0[i]; if (s > b) b = s; }
  double a = 0; for (i = 0; i < n; i++) a += fabs(c0[i]);
  for (f = 0; f < 4; f++) {
    if (f == 2 && NF == 2) continue;
    if (f == 0 ? !rm1_dec_sh : f == 1 ? !rm1_dec_sh_finp : f == 2 ? !rm1_dec_sh_dotp : !rm1_dec_lst) continue;
    if (!mc_case()) continue;
    mc_note("%s, m=%d, %s", FN[f], m, what);
    double *y = (double *)malloc(n * sizeof(double)), *y0 = (double *)malloc(n * sizeof(double)); int *x = (int *)malloc((m + 1) * (f == 3 ? 2 : 1) * sizeof(int));
    for (i = 0; i < n; i++) { y[i] = c0[i] * (a > 14 ? 14 / a : 1); // log-likelihood ratio of 1 and 0, no saturation
#ifdef RHO
      if (f == 1 || f == 2) y[i] = -y[i];
#else
      if (f == 1 || f == 2) y[i] = (1 - exp(y[i])) / (1 + exp(y[i]));
#endif
      y0[i] = y[i]; }
    for (i = 0; i <= m; i++) x[i] = 99;
    int rc = f == 0 ? rm1_dec_sh(m, y, x) : f == 1 ? rm1_dec_sh_finp(m, y, x) : f == 3 ? rm1_dec_lst(m, y, 2, x) : rm1_dec_sh_dotp(m, y, x), bad = rc != 0;
    for (i = 0; i <= m; i++) if (x[i] != 0 && x[i] != 1) bad = 1;
    int cw[256]; double s = 0;
    if (!bad) { rcode r = { K_RM, m, 1, NULL }; int nd = 0; rc_enc_(&r, m, 1, &nd, x, cw); for (i = 0; i < n; i++) s += (cw[i] ? 1 : -1) * c0[i]; }
    char t[300];
    double bb = b;
#ifdef MINSUM
    if (f != 2 && !bad) { double e[256]; int u[9]; for (i = 0; i < n; i++) e[i] = f == 1 ? y0[i] : -y0[i];
      s = metric(e, x); bb = -1e9; for (w = 0; w < 2 * n; w++) { for (i = 0; i <= m; i++) u[i] = w >> i & 1; double v = metric(e, u); if (v > bb) bb = v; } }
#endif
    if (bad || s < bb - 1e-6 * (1 + a)) mc_fail("not-ml", "%s, m=%d, %s: returns %d, word %s of correlation (min-sum: metric) %.9g, the best is %.9g", FN[f], m, what, rc, bits2s(t, x, m + 1), s, bb);
    if (memcmp(y, y0, n * sizeof(double))) mc_fail("input-modified", "%s changed its input", FN[f]);
    uint64_t h = mc_h2(m, f); for (i = 0; i <= m; i++) h = mc_h2(h, x[i]); mc_state(h);
    mc.evals++; mc.trans += 2 * n;
    free(x); free(y); free(y0);
  }
}
static double amp(int p, int i) { if (p == 2 && i % 3 == 1) return mc_gen(p + 100, i, 0.01, 0.12); return p == 0 ? mc_gen(p, i, 0.8, 1.2) : mc_gen(p, i, 0.05, 2); }
int main(int argc, char **argv) {
  mc_init(argc, argv); mc_quiet();
  double c[256]; char d[200];
  for (m = 1; m <= (mc.thorough ? 8 : 7); m++) {
    n = 1 << m;
    for (int w = 0; w < 2 * n; w++) { int x[9], cw[256], nd = 0; for (int i = 0; i <= m; i++) x[i] = w >> i & 1; rcode r = { K_RM, m, 1, NULL }; rc_enc_(&r, m, 1, &nd, x, cw); for (int i = 0; i < n; i++) book[w][i] = cw[i] ? 1 : -1; }
    for (int p = 0; p < 3; p++) for (int g = 0; g < 16; g++) {
      if (!mc_group()) continue;
      if (n <= 16) for (long v = g; v < 1L << n; v += 16) {
        if (n == 16 && !mc.thorough && v / 16 % 3 != p) continue;
        for (int i = 0; i < n; i++) c[i] = (v >> i & 1 ? 1 : -1) * amp(p, i);
        sprintf(d, "profile %d, signs %ld", p, v); run(c, d);
      }
      else for (int w = g; w < 2 * n; w += 16) for (int q = 0; q < 40; q++) { // every word with q errors in two layouts
        for (int i = 0; i < n; i++) c[i] = book[w][i] * amp(p, i);
        int e = q / 2; if (e > n / 2) break;
        for (int i = 0; i < e; i++) { int j = q & 1 ? (i * 7 + q) % n : (i * (n / 16 + 1) + w) % n; c[j] = -c[j]; }
        sprintf(d, "profile %d, word %d, error layout %d", p, w, q); run(c, d);
      }
    }
  }
  return mc_done();
}
