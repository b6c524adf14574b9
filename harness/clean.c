// C09: undistorted and lightly distorted words.
#include "cdc.h"
#include "refcode.h"
#ifdef SMALL
#define MMAX(x) (th ? (x) - 1 : 6)
#else
#define MMAX(x) (x)
#endif
typedef struct { char spec[9000]; void *cdc; rcode rc; const char *crc; int n, k, dmin; } cfg_t;
static cfg_t f;
static void one(const int *x, const int *cw, const int *flip, int nf, double sg, const char *sig) {
  if (mc.nfail >= 20) return;
  int n = f.n, k = f.k, i;
  double *c = (double *)malloc(n * sizeof(double));
  int *xd = (int *)malloc(k * sizeof(int));
  for (i = 0; i < n; i++) c[i] = cw[i] ? 1.0 : -1.0;
  for (i = 0; i < nf; i++) c[flip[i]] = -c[flip[i]];
  for (i = 0; i < k; i++) xd[i] = 77;
  cdc_set_sg(f.cdc, sg);
  int rc = dec_bpsk(f.cdc, c, xd);
  mc.evals++; mc.trans++; mc_tick();
  char b1[5000], b2[5000], fl[200] = "";
  for (i = 0; i < nf && i < 30; i++) sprintf(fl + strlen(fl), "%d ", flip[i]);
  if (rc != 0 || memcmp(x, xd, k * sizeof(int)))
    mc_fail(sig, "%s sg=%g inverted symbols [%s]: sent %s, decoded %s, code %d", f.spec, sg, fl, k < 1500 ? bits2s(b1, x, k) : "", k < 1500 ? bits2s(b2, xd, k) : "", rc);
  if (mc.evals % 5003 == 1 && k < 100) mc_sample("%s sg=%g inverted [%s]: %s", f.spec, sg, fl, bits2s(b1, x, k));
  free(c); free(xd);
}
static const double ladder[] = { 0.5, 0.35, 0.2, 0.1, 0.06, 0.0531, 0.05, 0.04, 0.02, 1e-3, 1e-6, 1e-9, 1e-13, 1e-30, 1e-100, 1e-150 };
static void word(const int *x, uint64_t h, int flips) {
  int cw[f.n], xx[f.rc.m > 12 ? 1 : (1 << f.rc.m)], i, j, fl[64];
  memcpy(xx, x, f.k * sizeof(int));
  if (f.crc) rc_crc(x, f.k, f.crc, xx + f.k);
  rc_enc(&f.rc, xx, cw);
  mc_state(mc_hbytes(h, x, f.k * sizeof(int)));
  double *y = (double *)malloc(f.n * sizeof(double)); int *xi = (int *)malloc(f.k * sizeof(int));
  memcpy(xi, x, f.k * sizeof(int));
  enc_bpsk(f.cdc, xi, y);   // what the code's own encoder sends
  for (i = 0; i < f.n; i++) if (y[i] != (cw[i] ? 1.0 : -1.0)) { mc_fail("codeword", "%s: encoder differs from definition", f.spec); break; }
  free(y); free(xi);
  for (i = 0; i < 16; i++) one(x, cw, NULL, 0, ladder[i], "clean");
  if (!flips) return;
  if (f.dmin >= 4) for (i = 0; i < f.n; i++) { fl[0] = i; for (j = 0; j < 16; j += flips > 1 ? 1 : 3) one(x, cw, fl, 1, ladder[j], "single"); }
#ifdef CODEC_DTRM1
  if (f.rc.r == 1 && f.rc.m > 1) {
    int t = (f.dmin - 1) / 2; // fewer than half
    if (t >= 2) { // all subsets up to t for n <= 16, all contiguous/periodic bursts of size t beyond
      static const double lad2[] = { 1.0, 0.7, 0.5 };
      if (f.n <= 16) {
        for (long s = 1; s < (1L << f.n); s++) {
          int c = __builtin_popcountl(s);
          if (c > t) continue;
          for (i = j = 0; i < f.n; i++) if ((s >> i) & 1) fl[j++] = i;
          for (j = 0; j < 3; j++) one(x, cw, fl, c, lad2[j], "half-distance");
        }
      } else {
        if (t > 64) t = 64;
        for (int a = 0; a < f.n; a++) for (int st = 1; st < 12; st += 2) {
          for (i = 0; i < t; i++) fl[i] = (a + i * st) % f.n;
          for (j = 0; j < 3; j++) one(x, cw, fl, t, lad2[j], "half-distance");
        }
      }
    }
  }
#endif
}
static void config(int maxk) {
  int i, j, x[8192];
  mc_note("%s", f.spec);
  f.cdc = cdc_open(f.spec);
  if (!f.cdc) { mc_fail("rejected", "valid configuration '%s' rejected", f.spec); return; }
  f.n = 1 << f.rc.m; f.k = rc_k(&f.rc) - (f.crc ? (int)strlen(f.crc) : 0);
  uint64_t h = mc_hstr(3, f.spec);
  if (cdc_get_n(f.cdc) != f.n || cdc_get_k(f.cdc) != f.k) mc_fail("dimension", "%s: n=%d k=%d", f.spec, cdc_get_n(f.cdc), cdc_get_k(f.cdc));
  else if (f.k <= maxk) {
    for (long w = 0; w < (1L << f.k); w++) { for (i = 0; i < f.k; i++) x[i] = (w >> i) & 1; word(x, h, f.n > 64 ? w == 1 : w < 4 || f.k <= 6 ? 2 : w % 16 == 5); }
  } else {
    memset(x, 0, sizeof(x)); word(x, h, f.n <= 64);
    for (i = 0; i < f.k; i++) x[i] = 1;
    word(x, h, f.n <= 64);
    int step = f.k > 128 ? f.k / 24 : f.k > 40 ? f.k / 32 + 1 : 1;
    for (i = 0; i < f.k; i += step) { memset(x, 0, sizeof(x)); x[i] = 1; word(x, h, i == 3 * step && f.n <= 256); }
    for (int p = 2; p <= 5; p++) for (j = 0; j < p; j++) { for (i = 0; i < f.k; i++) x[i] = (i + j) % p == 0; word(x, h, 0); }
  }
  cdc_close(f.cdc);
}
#define BEGIN(...) { if (mc_group()) { mc_case(); memset(&f, 0, sizeof(f)); sprintf(f.spec, __VA_ARGS__);
#define END } }
int main(int argc, char **argv) {
  mc_init(argc, argv); mc_quiet();
  int th = mc.thorough, maxk = th ? 12 : 8;
#if defined(CODEC_DTRM0) || defined(CODEC_DTRM1)
  for (int m = 1; m <= MMAX(th ? 12 : 10); m++) for (int r = 1; r <= m; r++)
    BEGIN("RM_m %d RM_r %d", m, r)
      f.rc = (rcode){ K_RM, m, r, NULL }; f.dmin = 1 << (m - r);
      config(maxk);
    END
#elif defined(CODEC_GLP)
  static const int Ls[] = { 1, 2, 3, 4, 7, 16 };
  char mb[3000];
  for (int m = 3; m <= MMAX(th ? 9 : 8); m++) for (int r = 2; r < m; r++) {
    int nodes = rc_nodes(K_RM, m, r);
    if (nodes > 1000) continue;
    int nmask = nodes <= 6 ? (1 << nodes) - 1 : nodes <= 30 ? nodes + 1 : 4;
    for (int mk = 0; mk < nmask; mk++) for (int li = 0; li < 6; li++) for (int pm = 0; pm < 2; pm++) {
      if (m > 5 && !th && (mk + li + pm) % 3) continue;
      if (m > 6 && !th && (mk + li + pm) % 2) continue;
      if (pm && mk != 0) continue;
      int i;
      for (i = 0; i < nodes; i++) mb[i] = '0' + (mk == 0 ? 1 : nodes <= 6 ? (mk >> i) & 1 : i != mk - 1);
      mb[nodes] = 0;
      BEGIN("RM_m %d RM_r %d border_node_mask %s border_node_lsize %d", m, r, mb, Ls[li])
        if (pm) { // all cyclic shifts and the reversal of the variables
          strcat(f.spec, " permutations { ");
          for (int s = 0; s <= m; s++) for (i = 0; i < m; i++) sprintf(f.spec + strlen(f.spec), "%d ", s == m ? m - 1 - i : (i + s) % m);
          strcat(f.spec, "}");
        }
        f.rc = (rcode){ K_RM, m, r, mb }; f.dmin = 1 << (m - r);
        config(maxk);
      END
    }
  }
#else
  static const int Ls[] = { 1, 2, 3, 8, 32 };
  static const char *crcs[] = { NULL, "1", "011", "11010101" };
  char mb[9000];
  for (int m = 1; m <= MMAX(th ? 10 : 9); m++) {
    long nmask = m <= 3 ? (1L << (1 << m)) : 3 * m + (1 << m) * (m <= 6);
    for (long mk = m <= 3; mk < nmask; mk++) for (int li = 0; li < 5; li++) for (int ci = 0; ci < 4; ci++) {
      int n = 1 << m, i, kk = 0, t = mk / 3;
      if (m == 3 && !th && (mk + li + ci) % 4) continue;
      if (m > 3 && !th && (mk + li * 4 + ci) % (m > 7 ? 11 : m > 5 ? 7 : 3)) continue;
      for (i = 0; i < n; i++) {
        int on = m <= 3 ? (mk >> i) & 1 : mk >= 3 * m ? i != mk - 3 * m : mk % 3 == 0 ? __builtin_popcount(i) >= t : mk % 3 == 1 ? i >= n * t / m : __builtin_popcount(i) >= t && (i % 7);
        mb[i] = '0' + on; kk += on;
      }
      mb[n] = 0;
      if (kk == 0 || (crcs[ci] && kk < 2 * (int)strlen(crcs[ci]))) continue;
      BEGIN("c_m %d info_bits_mask %s list_size %d", m, mb, Ls[li])
        if (crcs[ci]) sprintf(f.spec + strlen(f.spec), " ca_polar_crc %s", crcs[ci]);
        f.crc = crcs[ci];
        f.rc = (rcode){ K_POLAR, m, m, mb };
        f.dmin = n;
        for (i = 0; i < n; i++) if (mb[i] == '1' && (1 << __builtin_popcount(i)) < f.dmin) f.dmin = 1 << __builtin_popcount(i);
        config(th ? 8 : 6);
      END
    }
  }
#endif
  return mc_done();
}
