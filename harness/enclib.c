// C01: the library's encoders (common/srm_utils.c), called directly, against the recursive construction. Each is checked as far as the library has it.
#include "cdc.h"
typedef unsigned int u32;
#define W __attribute__((weak))
W int mrm_enc_mm_bsc(int, int *, int *), mrm_enc_bsc(int, int, int *, int *), mrm_enc_bpsk(int, int, int *, double *), smrm_enc_bsc(int, int, u32 *, int *, int *), smrm_enc_bpsk(int, int, u32 *, int *, double *),
  smrm_par0_enc_bsc(int, int, u32 *, int *, int *), smrm_par0_enc_bpsk(int, int, u32 *, int *, double *), calc_rm_k(int, int), calc_border_nodes_num(int, int), calc_srm_k(int, int, u32 *), calc_par0_srm_k(int, int, u32 *), check_permutation(int, int *);
// Reference. par: (0, m) border nodes only; otherwise (0, m) and (m, m) ones. t: table or NULL. Returns the dimension; x, y may be NULL.
static int np;
static int ref(int par, int m, int r, const u32 *t, const int *x, int *y) {
  int n = 1 << m, i, h = n / 2, b = r == 0 || (!par && r == m && t), v[64], u[64], k;
  if (b || r == 0) {
    int on = t ? t[np++] != 0 : 1;
    if (r == 0) { if (y) for (i = 0; i < n; i++) y[i] = on ? x[0] : 0; return on; }
    if (!on) { if (y) memset(y, 0, n * sizeof(int)); return 0; }
    t = NULL; par = 1;
  }
  k = ref(par, m - 1, r - 1, t, x, y ? v : NULL);
  k += ref(par, m - 1, r == m ? r - 1 : r, t, y ? x + k : NULL, y ? u : NULL);
  if (y) for (i = 0; i < h; i++) { y[i] = v[i] ^ u[i]; y[i + h] = u[i]; } // |u+v|u|
  return k;
}
static int nodes(int par, int m, int r) { return r == 0 || (!par && r == m) ? 1 : nodes(par, m - 1, r - 1) + nodes(par, m - 1, r == m ? r - 1 : r); }
static int xw[64], *px; static const char *nm;
static void cmp_(int m, int r, const u32 *t, int nn, int k, const int *y, const double *d, const int *ry, int rc, int want) {
  int n = 1 << m, i; char s[70] = "-", xs[70]; mc.evals++; mc.trans++;
  if (t) for (i = 0; i < nn; i++) s[i] = t[i] ? '1' : '0', s[i + 1] = 0;
  for (i = 0; i < k; i++) xs[i] = '0' + xw[i]; xs[k] = 0;
  if (rc != want) mc_fail("return", "%s(m=%d, r=%d, %s) of %s returns %d instead of %d", nm, m, r, s, xs, rc, want);
  if (px && memcmp(px, xw, k * sizeof(int))) mc_fail("input-modified", "%s(m=%d, r=%d, %s) changes %s", nm, m, r, s, xs);
  for (i = 0; i < n; i++) if (y ? y[i] != ry[i] : d[i] != (ry[i] ? 1.0 : -1.0)) { mc_fail("codeword", "%s(m=%d, r=%d, %s) of %s: symbol %d is wrong", nm, m, r, s, xs, i); return; }
}
static u32 *dup_(const u32 *t, int nn) { u32 *r = (u32 *)malloc(nn * sizeof(u32)); memcpy(r, t, nn * sizeof(u32)); return r; }
// f: 0..1 mrm, 2..3 smrm, 4..5 par0 (BSC, BPSK); 6 mm, 7 mm in place
static void one(int f, int m, int r, const u32 *t, int nn, int k) {
  int n = 1 << m, ry[64], rc = 0; np = 0; ref(f == 4 || f == 5, m, r, t, xw, ry);
  int *x = (int *)malloc((f == 7 ? n : k) * sizeof(int)), *y = (int *)malloc(n * sizeof(int)); double *d = (double *)malloc(n * sizeof(double)); u32 *tt = t ? dup_(t, nn) : NULL;
  memcpy(x, xw, k * sizeof(int)); memset(y, 0x55, n * sizeof(int)); memset(d, 0x55, n * sizeof(double)); px = f == 7 ? NULL : x;
  switch (f) {
    case 0: rc = mrm_enc_bsc(m, r, x, y); break; case 1: rc = mrm_enc_bpsk(m, r, x, d); break;
    case 2: rc = smrm_enc_bsc(m, r, tt, x, y); break; case 3: rc = smrm_enc_bpsk(m, r, tt, x, d); break;
    case 4: rc = smrm_par0_enc_bsc(m, r, tt, x, y); break; case 5: rc = smrm_par0_enc_bpsk(m, r, tt, x, d); break;
    case 6: rc = mrm_enc_mm_bsc(m, x, y); break; case 7: rc = mrm_enc_mm_bsc(m, x, x); break;
  }
  cmp_(m, r, t, nn, k, f == 7 ? x : f == 1 || f == 3 || f == 5 ? NULL : y, d, ry, rc, f == 1 || f == 3 || f == 5 ? 0 : k);
  if (tt && memcmp(tt, t, nn * sizeof(u32))) mc_fail("table-modified", "%s changes its table", nm);
  if (f != 7 && mc_state(mc_hbytes(mc_hbytes(f * 4096 + m * 64 + r, t ? (const void *)t : (const void *)"", t ? nn * sizeof(u32) : 0), ry, n * sizeof(int))) == 0)
    mc_fail("injective", "%s(m=%d, r=%d): two words have the same codeword", nm, m, r);
  free(x); free(y); free(d); free(tt);
}
static void words(int f, int m, int r, const u32 *t, int nn, int all) {
  int k, i; np = 0; k = ref(f == 4 || f == 5, m, r, t, NULL, NULL);
  if (k <= all) for (long w = 0; w < (1L << k); w++) { for (i = 0; i < k; i++) xw[i] = w >> i & 1; one(f, m, r, t, nn, k); }
  else { for (int j = -2; j < k; j++) { for (i = 0; i < k; i++) xw[i] = j == -2 ? 0 : j == -1 ? 1 : i == j; one(f, m, r, t, nn, k); } }
}
int main(int argc, char **argv) {
  mc_init(argc, argv); mc_quiet(); int th = mc.thorough, M = th ? 6 : 5;
  static const char *FN[] = { "mrm_enc_bsc", "mrm_enc_bpsk", "smrm_enc_bsc", "smrm_enc_bpsk", "smrm_par0_enc_bsc", "smrm_par0_enc_bpsk", "mrm_enc_mm_bsc", "mrm_enc_mm_bsc in place" };
  void *fp[] = { (void *)mrm_enc_bsc, (void *)mrm_enc_bpsk, (void *)smrm_enc_bsc, (void *)smrm_enc_bpsk, (void *)smrm_par0_enc_bsc, (void *)smrm_par0_enc_bpsk, (void *)mrm_enc_mm_bsc, (void *)mrm_enc_mm_bsc };
  for (int f = 0; f < 8; f++) for (int m = 0; m <= M; m++) for (int r = 0; r <= m; r++) {
    int par = f == 4 || f == 5, nn = nodes(par, m, r); u32 t[64];
    if (f >= 6 && r != m) continue;
    if (f < 2 || f >= 6) { if (mc_group() && fp[f] && mc_case()) { nm = FN[f]; mc_note("%s m=%d r=%d", nm, m, r); words(f, m, r, NULL, 0, 10); } continue; }
    long tot = nn <= 10 ? 1L << nn : 2 * nn + 2;
    for (long b = 0; b < tot; b++) {
      if (!mc_group()) continue;
      if (!fp[f] || !mc_case()) continue;
      for (int i = 0; i < nn; i++) t[i] = (nn <= 10 ? b >> i & 1 : b < 2 * nn ? (i == b / 2) ^ (b & 1) : b & 1) ? 1 + (i * 7 & 31) : 0; // any nonzero value
      nm = FN[f]; mc_note("%s m=%d r=%d mask %lx", nm, m, r, b);
      words(f, m, r, t, nn, nn <= 6 ? 10 : 6);
      np = 0; int k = ref(par, m, r, t, NULL, NULL); u32 *tt = dup_(t, nn);
      if (!par && calc_srm_k && calc_srm_k(m, r, tt) != k) mc_fail("dimension", "calc_srm_k(m=%d, r=%d, mask %lx) is not %d", m, r, b, k);
      if (par && calc_par0_srm_k && calc_par0_srm_k(m, r, tt) != k) mc_fail("dimension", "calc_par0_srm_k(m=%d, r=%d, mask %lx) is not %d", m, r, b, k);
      free(tt);
    }
  }
  for (int m = 0; m <= 20; m++) { if (!mc_group()) continue; if (!mc_case()) continue;
    for (int r = 0; r <= m; r++) { long k = 0, c = 1, bn; for (int i = 0; i <= r; i++) { k += c; c = c * (m - i) / (i + 1); }
      bn = 1; for (int i = 0; i < r; i++) bn = bn * (m - i) / (i + 1); // C(m, r)
      mc_note("dimensions, m=%d r=%d", m, r); mc.evals++;
      if (calc_rm_k && calc_rm_k(m, r) != k) mc_fail("dimension", "calc_rm_k(%d, %d) is not %ld", m, r, k);
      if (calc_border_nodes_num && calc_border_nodes_num(m, r) != bn) mc_fail("nodes", "calc_border_nodes_num(%d, %d) is not %ld", m, r, bn); } }
  for (int m = 1; m <= (th ? 6 : 5); m++) { if (!mc_group()) continue; if (!mc_case() || !check_permutation) continue;
    long tot = 1; for (int i = 0; i < m; i++) tot *= m + 2;
    for (long w = 0; w < tot; w++) { int p[8], cnt[8] = { 0 }, ok = 1, id = 1; long v = w;
      for (int i = 0; i < m; i++, v /= m + 2) { p[i] = (int)(v % (m + 2)) - 1; if (p[i] < 0 || p[i] >= m || cnt[p[i]]++) ok = 0; if (p[i] != i) id = 0; }
      mc.evals++; if (check_permutation(m, p) != (ok ? id ? 1 : 2 : 0)) { mc_note("check_permutation m=%d #%ld", m, w); mc_fail("permutation", "check_permutation is wrong for number %ld of m=%d", w, m); break; } } }
  return mc_done();
}
