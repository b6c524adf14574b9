// C01, C02 (PROP 1) and C09 (PROP 9): codes of lengths 2^11 to 2^20.
#include "cdc.h"
#include "refcode.h"
static rcode rc; static const char *crc; static char *spec, *mask;
// The recursive definition, in place.
static const int *enc(int m, int r, int *nd, const int *x, int *y) {
  int n = 1 << m, h = n / 2, i, s;
  if (rc_is_border(rc.kind, m, r)) {
    int id = (*nd)++;
    if (rc.mask && rc.mask[id] == '0') { memset(y, 0, n * sizeof(int)); return x; }
    if (rc_border_k(rc.kind, m, r) == 1) { for (i = 0; i < n; i++) y[i] = *x; return x + 1; }
    memcpy(y, x, n * sizeof(int));
    for (s = 1; s < n; s *= 2) for (i = 0; i < n; i++) if (!(i & s)) y[i] ^= y[i + s];
    return x + n;
  }
  x = enc(m - 1, r - 1, nd, x, y);
  x = enc(m - 1, r, nd, x, y + h);
  for (i = 0; i < h; i++) y[i] ^= y[i + h];
  return x;
}
static void word(void *cdc, int k, int w, int what) {
  int n = 1 << rc.m, i, j, nd = 0, cl = crc ? (int)strlen(crc) : 0; mc_note("%.300s: word %d", spec, w);
  int *x = (int *)malloc((k + cl) * sizeof(int)), *x2 = (int *)malloc(k * sizeof(int)), *y = (int *)malloc(n * sizeof(int)); double *c = (double *)malloc(n * sizeof(double));
  for (i = 0; i < k; i++) x[i] = w == 0 ? 1 : w == 1 ? i == k - 1 : w == 2 ? i == 0 : w == 3 ? i % 3 != 1 : w == 4 ? i == k / 2 : w == 5 ? (i / 7 + i) % 5 < 2 : __builtin_popcount(i * (w - 5)) & 1;
  memcpy(x2, x, k * sizeof(int)); if (cl) rc_crc(x, k, crc, x + k);
  enc(rc.m, rc.r, &nd, x, y);
  uint64_t h = mc_hbytes(mc_hstr(7, spec), x, k * sizeof(int));
#if PROP == 1
  for (i = 0; i < n; i++) c[i] = 7;
  mc.evals++; mc.trans++; mc_state(h);
  int e = enc_bpsk(cdc, x2, c); mc_tick();
  if (e) mc_fail("return", "%.300s: word %d: encoder returns %d", spec, w, e);
  if (memcmp(x, x2, k * sizeof(int))) mc_fail("input-modified", "%.300s: word %d changed by the encoder", spec, w);
  for (i = j = 0; i < n; i++) if (c[i] != (y[i] ? 1 : -1)) { if (!j) e = i; j++; }
  if (j) mc_fail("codeword", "%.300s: word %d: %d wrong symbols, the first is symbol %d", spec, w, j, e);
#else
  // At 0.5 the reliabilities of long codes of high rates vanish in double precision.
  static const double SG[] = { 0.5, 0.35, 0.1, 0.05, 1e-3, 1e-9 };
  for (int s = 0; s < 6; s++) {
    if (s < what) continue;
    for (i = 0; i < n; i++) c[i] = y[i] ? 1 : -1;
    for (i = 0; i < k; i++) x2[i] = 77;
    cdc_set_sg(cdc, SG[s]); mc.evals++; mc.trans++; mc_state(mc_h2(h, s));
    int e = dec_bpsk(cdc, c, x2); mc_tick();
    for (i = j = 0; i < k; i++) j += x[i] != x2[i];
    if (e || j) mc_fail("clean", "%.300s: word %d, sg %g: %d wrong bits, code %d", spec, w, SG[s], j, e);
  }
#endif
  free(x); free(x2); free(y); free(c);
}
static void config(int nw, int what) {
  void *cdc = cdc_open(spec); int n = 1 << rc.m, cl = crc ? (int)strlen(crc) : 0, k = rc_k(&rc) - cl;
  mc_note("%.300s", spec);
  if (!cdc) { mc_fail("rejected", "valid configuration '%.300s' rejected", spec); return; }
  if (cdc_get_n(cdc) != n || cdc_get_k(cdc) != k) mc_fail("dimension", "%.300s: n %d, k %d, expected %d, %d", spec, cdc_get_n(cdc), cdc_get_k(cdc), n, k);
  else { cdc_set_sg(cdc, 1); for (int w = 0; w < nw && mc.nfail < 20; w++) word(cdc, k, w, what); }
  cdc_close(cdc);
}
int main(int argc, char **argv) {
  mc_init(argc, argv); mc_quiet();
  int i, m, q, t, L; spec = (char *)malloc(3 << 20); mask = (char *)malloc(2 << 20);
  for (m = 11; m <= 20; m++) {
    int nw = mc.thorough ? 12 : m < 14 ? 8 : m < 17 ? 4 : 2;
#ifndef CODEC_POLAR
    int R[] = { 1, 2, 3, m / 2, m - 2, m - 1, m };
    for (q = 0; q < 7; q++) {
#ifdef CODEC_GLP
      if (q == 0 || q == 6) continue;
      int nd = rc_nodes(K_RM, m, R[q]);
      for (t = 0; t < 4; t++) {
        if (m > 15 && !mc.thorough && t != (m + q) % 4) continue;
        if (!mc_group() || !mc_case()) continue;
        L = t == 2 && m < 17 ? 4 : t == 1 && m < 13 ? 3 : 1;
        for (i = 0; i < nd; i++) mask[i] = '0' + (t == 0 || t == 3 ? 1 : t == 1 ? i % 3 != 1 : i >= nd / 2);
        mask[nd] = 0; rc = (rcode){ K_RM, m, R[q], mask };
        i = sprintf(spec, "RM_m %d RM_r %d border_node_lsize %d ", m, R[q], L);
        if (t == 3) { i += sprintf(spec + i, "permutations { "); for (int j = 0; j < m; j++) i += sprintf(spec + i, "%d ", (j + 3) % m); i += sprintf(spec + i, "} "); }
        sprintf(spec + i, "border_node_mask %s", mask);
        config(nw, m > 15);
      }
#else
      if (!mc_group() || !mc_case()) continue;
      rc = (rcode){ K_RM, m, R[q], NULL }; sprintf(spec, "RM_m %d RM_r %d", m, R[q]);
      config(nw, m > 15);
#endif
    }
#else
    for (t = 0; t < 8; t++) {
      if (m > 15 && !mc.thorough && t % 4 != m % 4) continue;
      if (!mc_group() || !mc_case()) continue;
      int n = 1 << m; L = m < 13 ? t % 4 + 1 : m < 17 ? t % 2 + 1 : 1;
      for (i = 0; i < n; i++) mask[i] = '0' + (t == 0 ? 1 : t < 4 ? __builtin_popcount(i) >= m / 2 + t - 2 : t == 4 ? i >= n / 2 : t == 5 ? i == n - 1 || i == n - 2 || i == n - 3 || i % 1001 == 1000 : t == 6 ? i % 2 : i % 3 != 0);
      mask[n] = 0; rc = (rcode){ K_POLAR, m, m, mask }; crc = t == 2 ? "0000011000110001" : t == 4 ? "11010101" : NULL;
      i = sprintf(spec, "c_m %d list_size %d ", m, L); if (crc) i += sprintf(spec + i, "ca_polar_crc %s ", crc);
      sprintf(spec + i, "info_bits_mask %s", mask);
      config(nw, m > 15);
    }
#endif
  }
  return mc_done();
}
