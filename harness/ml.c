// C08: decoders with full-size lists against brute-force minimum Euclidean distance.
#include "cdc.h"
#include "refcode.h"
typedef struct { char spec[6000]; void *cdc; rcode rc; const char *crc; int n, k; } cfg_t;
static cfg_t f;
static struct { double sg, lo, hi; int weak; } prof[] = { { 0.8, 0.8, 1.2, 0 }, { 1.0, 0.05, 2.0, 0 }, { 1.0, 0.7, 1.3, 3 } };
static double amp(int p, int i) {
  if (prof[p].weak && i % prof[p].weak == 1) return mc_gen(p + 100, i, 0.01, 0.12);
  return mc_gen(p, i, prof[p].lo, prof[p].hi);
}
// Noise level at which no partial sum of log-likelihood ratios can reach the clipping threshold (about 19).
static double sgof(int p, const double *c, int n) {
  double a = 0;
  for (int i = 0; i < n; i++) a += fabs(c[i]);
  a = sqrt(2 * a / 17);
  return a > prof[p].sg ? a : prof[p].sg;
}
static signed char *book; // 2^k words of n
static void run(int p, const double *c0) {
  if (mc.nfail >= 20) return;
  int n = f.n, k = f.k, i;
  // correlation
  double b = -1e9, b2 = -1e9; long bw = 0;
  for (long w = 0; w < (1L << k); w++) {
    double s = 0;
    for (i = 0; i < n; i++) s += book[w * n + i] * c0[i];
    if (s > b) { b2 = b; b = s; bw = w; } else if (s > b2) b2 = s;
  }
  double *c = (double *)malloc(n * sizeof(double)); int *x = (int *)malloc((k ? k : 1) * sizeof(int));
  memcpy(c, c0, n * sizeof(double));
  for (i = 0; i < k; i++) x[i] = 99;
  double sg = sgof(p, c0, n);
  cdc_set_sg(f.cdc, sg);
  int rc = dec_bpsk(f.cdc, c, x);
  mc.evals++; mc.trans += 1L << k; mc_tick();
  long xw = 0; int bad = rc != 0;
  for (i = 0; i < k; i++) { if (x[i] != 0 && x[i] != 1) bad = 1; xw |= (long)(x[i] & 1) << i; }
  double got = 0;
  for (i = 0; i < n; i++) got += book[xw * n + i] * c0[i];
  mc_state(mc_h2(mc_hstr(1, f.spec), xw));
  if (k && b - b2 < 1e-5) { mc.skipped++; if (got < b - 1e-5) bad = 1; }
  else if (xw != bw) bad = 1;
  if (bad || mc.evals % 4001 == 1) {
    char y[3000] = "";
    for (i = 0; i < n && i < 64; i++) sprintf(y + strlen(y), "%.8g ", c0[i]);
    if (bad) mc_fail("not-ml", "%s sg=%g y=%s: decoded word %lx (code %d, correlation %.9g), the closest word is %lx (%.9g)", f.spec, sg, y, xw, rc, got, bw, b);
    else mc_sample("%s sg=%g y=%s-> word %lx of %ld", f.spec, sg, y, xw, 1L << k);
  }
  free(c); free(x);
}
static void config(long step) {
  int i, j, x[64];
  mc_note("%s", f.spec);
  f.n = 1 << f.rc.m; f.k = rc_k(&f.rc) - (f.crc ? (int)strlen(f.crc) : 0);
  f.cdc = cdc_open(f.spec);
  if (!f.cdc) { mc_fail("rejected", "valid configuration '%s' rejected", f.spec); return; }
  if (cdc_get_n(f.cdc) != f.n || cdc_get_k(f.cdc) != f.k) { mc_fail("dimension", "%s: n=%d k=%d", f.spec, cdc_get_n(f.cdc), cdc_get_k(f.cdc)); cdc_close(f.cdc); return; }
  book = (signed char *)malloc((1L << f.k) * f.n);
  int cw[f.n]; double c[f.n];
  for (long w = 0; w < (1L << f.k); w++) {
    for (i = 0; i < f.k; i++) x[i] = (w >> i) & 1;
    if (f.crc) rc_crc(x, f.k, f.crc, x + f.k);
    rc_enc(&f.rc, x, cw);
    for (i = 0; i < f.n; i++) book[w * f.n + i] = cw[i] ? 1 : -1;
  }
  for (int p = 0; p < 3; p++) {
    if (f.n <= 16) for (long s = p % step; s < (1L << f.n); s += step) {
      for (i = 0; i < f.n; i++) c[i] = ((s >> i) & 1 ? 1 : -1) * amp(p, i);
      run(p, c);
    } else { // word 0 and the last one: all single and double inversions of symbols
      for (long w = 0; w < (1L << f.k); w += (1L << f.k) - 1 > 0 ? (1L << f.k) - 1 : 1) {
        for (i = 0; i < f.n; i++) c[i] = book[w * f.n + i] * amp(p, i);
        run(p, c);
        for (i = 0; i < f.n; i++) { c[i] = -c[i]; run(p, c); for (j = 0; j < i; j += step) { c[j] = -c[j]; run(p, c); c[j] = -c[j]; } c[i] = -c[i]; }
      }
    }
  }
  free(book); cdc_close(f.cdc);
}
#define BEGIN(...) { if (mc_group()) { mc_case(); memset(&f, 0, sizeof(f)); sprintf(f.spec, __VA_ARGS__);
#define END } }
int main(int argc, char **argv) {
  mc_init(argc, argv); mc_quiet();
  int th = mc.thorough, kmax = th ? 11 : 9, i;
  char mb[600];
  (void)kmax; (void)mb; (void)i;
#if defined(CODEC_DTRM0)
  for (int m = 1; m <= 4; m++)
    BEGIN("RM_m %d RM_r %d", m, m)
      f.rc = (rcode){ K_RM, m, m, NULL };
      // symbolwise decisions: the brute-force search is per symbol.
      int n = 1 << m, x[16], cw[16];
      double c[16];
      mc_note("%s", f.spec);
      f.cdc = cdc_open(f.spec);
      if (!f.cdc) mc_fail("rejected", "'%s' rejected", f.spec);
      else for (int p = 0; p < 3; p++) for (long s = 0; s < (1L << n); s += th || m < 4 ? 1 : 3) {
        for (int i = 0; i < n; i++) c[i] = ((s >> i) & 1 ? 1 : -1) * amp(p, i);
        cdc_set_sg(f.cdc, prof[p].sg);
        int rc = dec_bpsk(f.cdc, c, x);
        mc.evals++; mc.trans++; mc_tick(); mc_state(mc_h2(m, s));
        rc_enc(&f.rc, x, cw);
        for (int i = 0; i < n; i++) if (rc || cw[i] != ((s >> i) & 1)) { mc_fail("not-ml", "%s sign pattern %lx profile %d: symbol %d of the decoded word is %d (code %d)", f.spec, s, p, i, cw[i], rc); break; }
      }
      if (f.cdc) cdc_close(f.cdc);
    END
#elif defined(CODEC_GLP)
  // RM(2,m) codes and subcodes with lists of at least 2^k words.
  for (int m = 3; m <= 5; m++) for (int r = 2; r <= 2; r++) {
    int nodes = rc_nodes(K_RM, m, r);
    for (long mk = 1; mk < (1L << nodes); mk++) for (int li = 0; li < 2; li++) {
      for (i = 0; i < nodes; i++) mb[i] = '0' + ((mk >> i) & 1);
      mb[nodes] = 0;
      rcode rc = { K_RM, m, r, mb };
      int k = rc_k(&rc);
      if (k > kmax || k < 1 || (m == 5 && k > kmax - 1)) continue;
      BEGIN("RM_m %d RM_r %d border_node_mask %s border_node_lsize %d", m, r, mb, (1 << k) + li * 5)
        f.rc = rc; config(m == 3 ? 1 : m == 4 ? (k > 8 ? 1009 : th ? 17 : 127) : 3);
      END
    }
  }
  for (int q = 0; q < 6; q++) { // longer lists
    static const struct { int m; const char *mask; } C[] = { { 4, "111111" }, { 4, "111111" }, { 5, "1111111011" }, { 5, "1111101111" }, { 5, "1111111010" }, { 5, "0111110111" } };
    rcode rc = { K_RM, C[q].m, 2, C[q].mask }; int k = rc_k(&rc);
    if (k < 10 || k > 13) continue;
    BEGIN("RM_m %d RM_r 2 border_node_mask %s border_node_lsize %d", rc.m, rc.mask, (1 << k) + q % 2)
      f.rc = rc; config(rc.m == 4 ? (th ? 257 : 2003) : th ? 11 : 31);
    END
  }
  static const int P3[6][3] = { {0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0} };
  for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) // any permutations, room for all words of both
    BEGIN("RM_m 3 RM_r 2 border_node_mask 111 border_node_lsize 256 permutations { %d %d %d %d %d %d }", P3[a][0], P3[a][1], P3[a][2], P3[b][0], P3[b][1], P3[b][2])
      f.rc = (rcode){ K_RM, 3, 2, NULL }; config(1);
    END
#else
  static const char *crcs[] = { NULL, "1", "11", "101", "0011" };
  for (int m = 1; m <= 3; m++) for (long mk = 1; mk < (1L << (1 << m)); mk++) for (int ci = 0; ci < 5; ci++) {
    int n = 1 << m, kk = __builtin_popcountl(mk);
    if (crcs[ci] && kk < 2 * (int)strlen(crcs[ci])) continue;
    for (i = 0; i < n; i++) mb[i] = '0' + ((mk >> i) & 1);
    mb[n] = 0;
    BEGIN("c_m %d info_bits_mask %s list_size %d", m, mb, (1 << kk) + (mk % 3 ? 0 : 3))
      if (crcs[ci]) sprintf(f.spec + strlen(f.spec), " ca_polar_crc %s", crcs[ci]);
      f.crc = crcs[ci]; f.rc = (rcode){ K_POLAR, m, m, mb };
      config(m == 3 && !th ? 3 : 1);
    END
  }
  for (int m = 4; m <= 5; m++) for (int q = 0; q < 4 * (1 << m); q++) for (int ci = 0; ci < 5; ci++) {
    int n = 1 << m, kk = 0;
    for (i = 0; i < n; i++) { // the last ones, the heaviest, and combinations with one index toggled
      int on = q % 4 == 0 ? i >= n - 7 : q % 4 == 1 ? __builtin_popcount(i) >= m - 1 : q % 4 == 2 ? (i * 5) % n < 5 : i % 4 == 3 && i > n / 3;
      if (i == q / 4) on = !on;
      mb[i] = '0' + on; kk += on;
    }
    mb[n] = 0;
    if (kk > kmax || kk < 1 || (crcs[ci] && kk < 2 * (int)strlen(crcs[ci])) || (!th && (q + ci) % 2)) continue;
    BEGIN("c_m %d info_bits_mask %s list_size %d", m, mb, (1 << kk) + q % 2)
      if (crcs[ci]) sprintf(f.spec + strlen(f.spec), " ca_polar_crc %s", crcs[ci]);
      f.crc = crcs[ci]; f.rc = (rcode){ K_POLAR, m, m, mb };
      config(m == 4 ? (th ? 31 : 211) : 5);
    END
  }
  for (int q = 0; q < 12; q++) { // longer lists
    static const char *MK[] = { "1111111111110000", "0000111111111111", "1111011111110111", "0111111111111110", "1110111011101110", "00000001000101110001011101111110" };
    const int m = q % 6 < 5 ? 4 : 5; const char *cr = q < 6 ? NULL : "101"; int kk = 0; for (i = 0; i < 1 << m; i++) kk += MK[q % 6][i] == '1';
    BEGIN("c_m %d info_bits_mask %s list_size %d", m, MK[q % 6], (1 << kk) + q % 2)
      if (cr) sprintf(f.spec + strlen(f.spec), " ca_polar_crc %s", cr);
      f.crc = cr; f.rc = (rcode){ K_POLAR, m, m, MK[q % 6] };
      config(m == 4 ? (th ? 257 : 4001) : th ? 11 : 41);
    END
  }
#endif
  return mc_done();
}
