// C03: CRC calculation and validation against polynomial division.
#include "mc.h"
#include "refcode.h"
int *calc_crc(const int *x, int x_len, const int *crc_poly, int crc_len, int *crc_buf);
int is_valid_crc(const int *x, int info_len, const int *crc_poly, int crc_len, int *buf);

static void one(const int *x0, int n, const char *g, int allchecks) {
  int l = (int)strlen(g), i, ref[300];
  int *x = (int *)malloc(n * sizeof(int)), *p = (int *)malloc(l * sizeof(int)), *buf = (int *)malloc(n * sizeof(int));
  char *b = (char *)malloc(n + 1);
  memcpy(x, x0, n * sizeof(int));
  for (i = 0; i < l; i++) p[i] = g[i] - '0';
  rc_crc(x0, n, g, ref);
  int *c = calc_crc(x, n, p, l, buf);
  mc.evals++; mc.trans++;
  for (i = 0; i < n; i++) b[i] = '0' + x0[i];
  b[n] = 0;
  if (c != buf + n - l) mc_fail("crc-place", "poly %s seq %.600s: result is not at buf + x_len - crc_len", g, b);
  else for (i = 0; i < l; i++) if (c[i] != ref[i]) { mc_fail("crc-value", "poly %s seq %.600s: crc bit %d is %d, remainder has %d", g, b, i, c[i], ref[i]); break; }
  if (memcmp(x, x0, n * sizeof(int))) mc_fail("crc-input", "poly %s seq %.600s: sequence modified", g, b);
  for (i = 0; i < l; i++) if (p[i] != g[i] - '0') mc_fail("crc-poly", "poly %s modified", g);
  uint64_t h = mc_hstr(mc_hbytes(3, x0, n * sizeof(int)), g);
  mc_state(h);
  // Validation: every check word (or the right one and all single/double errors).
  int *xc = (int *)malloc((n + l) * sizeof(int));
  int *xs = (int *)malloc((n + l) * sizeof(int));
  long nv = allchecks == 1 ? (1L << l) : allchecks == 2 ? 3 : 1 + l + l * (l - 1) / 2 + 1;
  for (long v = 0; v < nv; v++) {
    int err[300] = {0}, any = 0;
    if (allchecks == 1) for (i = 0; i < l; i++) err[i] = (v >> i) & 1;
    else if (allchecks == 2) { if (v == 1) err[n * 7 % l] = 1; else if (v == 2) { err[0] = 1; err[(n + x0[n / 2]) % l] ^= 1; } }
    else if (v == 1 + l + l * (l - 1) / 2) for (i = 0; i < l; i++) err[i] = 1;
    else if (v >= 1 && v <= l) err[v - 1] = 1;
    else if (v > l) { long q = v - 1 - l; int a = 1; while (q >= a) { q -= a; a++; } err[a] = 1; err[q] = 1; }
    memcpy(xc, x0, n * sizeof(int));
    for (i = 0; i < l; i++) { xc[n + i] = ref[i] ^ err[i]; any |= err[i]; }
    memcpy(xs, xc, (n + l) * sizeof(int));
    int r = is_valid_crc(xc, n, p, l, buf);
    mc.evals++; mc.trans++;
    if (r != !any) mc_fail("crc-valid", "poly %s seq %.600s: is_valid_crc = %d for check bits with error pattern %ld", g, b, r, v);
    if (memcmp(xs, xc, (n + l) * sizeof(int))) mc_fail("crc-input", "poly %s seq %.600s: modified by validation", g, b);
  }
  if (mc.evals % 5000 < 20) mc_sample("poly z^%d+%s, sequence %.600s: remainder and all check words as defined", l, g, b);
  free(x); free(p); free(buf); free(xc); free(xs); free(b);
}
int main(int argc, char **argv) {
  mc_init(argc, argv);
  int PL = mc.thorough ? 8 : 6, SL = mc.thorough ? 15 : 12, l, n, i, j;
  for (l = 1; l <= PL; l++) for (int g = 0; g < (1 << l); g++) {
    if (!mc_group()) continue;
    char gs[40];
    for (i = 0; i < l; i++) gs[i] = '0' + ((g >> (l - 1 - i)) & 1);
    gs[l] = 0;
    for (n = l; n <= SL; n++) {
      if (!mc_case()) continue;
      int x[64];
      for (long w = 0; w < (1L << n); w++) {
        for (i = 0; i < n; i++) x[i] = (w >> i) & 1;
        one(x, n, gs, n <= 9 && l <= 5 ? 1 : n <= 10 || mc.thorough ? 0 : 2);
      }
    }
  }
  // Longer polynomials and sequences: zero, ones, units, pairs, all periodic sequences.
  static const char *lp[] = { "00000001", "10000000", "11010101", "00110001", "0001000000100001", "1000000000000101",
    "11000011001001100111101", "00000100110000010001110110110111", "1111111111", "01" , "1", "0", "111"};
  int lens[] = { 32, 33, 40, 64, 127, 128, 256, 500 };
  for (i = 0; i < (int)(sizeof(lp) / sizeof(lp[0])); i++) for (j = 0; j < 8; j++) {
    if (!mc_group()) continue;
    mc_case();
    n = lens[j];
    int x[512], a, b;
    memset(x, 0, sizeof(x)); one(x, n, lp[i], 0);
    for (a = 0; a < n; a++) x[a] = 1;
    one(x, n, lp[i], 0);
    for (a = 0; a < n; a++) {
      if (!mc_case()) continue;
      memset(x, 0, sizeof(x)); x[a] = 1; one(x, n, lp[i], n <= 128 ? 0 : 2);
      if (n <= 128 || mc.thorough) for (b = 0; b < a; b++) { memset(x, 0, sizeof(x)); x[a] = x[b] = 1; one(x, n, lp[i], 2); }
    }
    for (int p = 2; p < (mc.thorough ? 12 : 8); p++) for (int v = 1; v < (1 << p); v++) {
      if (!mc_case()) continue;
      for (a = 0; a < n; a++) x[a] = (v >> (a % p)) & 1;
      one(x, n, lp[i], 2);
    }
  }
  // Very long sequences, and polynomials of up to 257 bits.
  static const int vl[] = { 1000, 1023, 4097, 32768, 65537, 131071, 140001 }, pl[] = { 1, 8, 16, 31, 33, 63, 64, 65, 127, 256, 257 };
  for (i = 0; i < 7; i++) for (j = 0; j < 11; j++) for (int f = 0; f < 3; f++) {
    if (!mc_group()) continue;
    char gs[300]; int *x = (int *)malloc(vl[i] * sizeof(int)), a;
    for (a = 0; a < pl[j]; a++) gs[a] = '0' + (f == 0 ? a == pl[j] - 1 : f == 1 ? a % 3 == 0 : 1);
    gs[a] = 0;
    for (int w = 0; w < 6; w++) {
      if (!mc_case()) continue;
      if (i > 3 && !mc.thorough && (w + j + f) % 3) continue;
      for (a = 0; a < vl[i]; a++) x[a] = w == 0 ? 1 : w == 1 ? a == 0 : w == 2 ? a == vl[i] - 1 : w == 3 ? a == vl[i] - 1 - pl[j] : w == 4 ? a % 3 == 1 : __builtin_popcount(a * 77) & 1;
      one(x, vl[i], gs, i < 2 && pl[j] < 20 ? 0 : 2);
      int y[900]; // and as short as the polynomial and twice that
      for (a = 0; a < 2 * pl[j]; a++) y[a] = w == 0 ? 1 : w == 1 ? a == 0 : w == 2 ? a == 2 * pl[j] - 1 : w == 3 ? a == pl[j] - 1 : w == 4 ? a % 3 == 1 : __builtin_popcount(a * 77) & 1;
      if (i < 2) { one(y, pl[j] + i, gs, 0); one(y, 2 * pl[j] - i, gs, pl[j] > 40 ? 2 : 0); }
    }
    free(x);
  }
  return mc_done();
}
