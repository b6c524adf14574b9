// C11: the product of in-range, boundary and out-of-range parameter values; every configuration is either rejected
// or fully usable. Verdict of the oracle: MUST (documented, has to be accepted), REJ (has to be rejected), ANY.
#include "cdc.h"
#include "refcode.h"
size_t __sanitizer_get_current_allocated_bytes(void);
const char *__asan_default_options(void) { return "max_malloc_fill_size=4096:malloc_fill_byte=255:detect_leaks=0:quarantine_size_mb=8:allocator_may_return_null=1:max_allocation_size_mb=3000"; }
enum { MUST, REJ, ANY };
static const char *VN[] = {"valid", "invalid", "undocumented"};

static char sp[400000];
static void add(const char *fmt, ...) { va_list ap; va_start(ap, fmt); char *e = sp + strlen(sp); vsnprintf(e, sizeof(sp) - (e - sp), fmt, ap); va_end(ap); }
static rcode RC; static char rmask[70000]; static const char *crc;

// Encode, decode undistorted, decode noise.
static void usable(void *h) {
  int n = 1 << RC.m, k, i, w;
  k = rc_k(&RC); if (crc) k -= (int)strlen(crc);
  if (cdc_get_n(h) != n || cdc_get_k(h) != k) { mc_fail("dimension", "'%.200s': n=%d k=%d, expected %d %d", sp, cdc_get_n(h), cdc_get_k(h), n, k); return; }
  if (k < 1) { mc_fail("accepted", "'%.200s' accepted although it has no information bits", sp); return; }
  for (w = 0; w < (strlen(sp) > 20000 ? 1 : 4); w++) {
    int *x = (int *)malloc(k * sizeof(int)), *xd = (int *)malloc(k * sizeof(int)), *xx = (int *)malloc((k + 100) * sizeof(int)), *cw = (int *)malloc(n * sizeof(int));
    double *y = (double *)malloc(n * sizeof(double));
    for (i = 0; i < k; i++) x[i] = w == 0 ? 0 : w == 1 ? 1 : w == 2 ? i % 3 == 1 : (i * i + i / 5) & 1;
    memcpy(xx, x, k * sizeof(int));
    if (crc) rc_crc(x, k, crc, xx + k);
    if (n <= 4096) rc_enc(&RC, xx, cw);
    cdc_set_sg(h, 0.5);
#ifdef CODEC_GLP
    cdc_set_csnrn(h, 0);
#endif
    int erc = enc_bpsk(h, x, y);
    if (n <= 4096) for (i = 0; i < n; i++) if (y[i] != (cw[i] ? 1 : -1)) { mc_fail("codeword", "'%.200s' is accepted but encodes a wrong word", sp); break; }
    for (i = 0; i < k; i++) xd[i] = 99;
    int rc = dec_bpsk(h, y, xd);
    mc.evals++; mc.trans += 3; mc_tick();
    if (rc || erc || memcmp(x, xd, k * sizeof(int))) mc_fail("clean", "'%.200s' is accepted but does not decode an undistorted word (code %d, encoder returns %d)", sp, rc, erc);
    for (i = 0; i < n; i++) y[i] += mc_gen(w, i, -2.5, 2.5);
    rc = dec_bpsk(h, y, xd);
    for (i = 0; i < k; i++) if (xd[i] != 0 && xd[i] != 1) { mc_fail("nonbit", "'%.200s': decoded symbol %d is not a bit", sp, i); break; }
    free(x); free(xd); free(y); free(xx); free(cw);
    if (mc.nfail >= 20) return;
  }
}
static uint64_t nacc, nrej;
static void check(int verdict) {
  if (!mc_case()) return;
  size_t sl = strlen(sp);
  if (sl < 700) mc_note("%s", sp); else mc_note("%.300s ... %s", sp, sp + sl - 300);
  mc_state(mc_hstr(1, sp));
  mc.evals++; mc_tick();
  size_t b0 = __sanitizer_get_current_allocated_bytes();
  void *h = cdc_open(sp);
  if (h) {
    nacc++;
    if (verdict == REJ) mc_fail("accepted", "invalid configuration '%.200s' is accepted", sp);
    else usable(h);
    cdc_close(h);
  } else {
    nrej++;
    if (verdict == MUST) mc_fail("rejected", "valid configuration '%.200s' is rejected", sp);
  }
  size_t b1 = __sanitizer_get_current_allocated_bytes();
  if (b1 != b0) mc_fail("leak", "'%.200s': %ld bytes lost after %s", sp, (long)(b1 - b0), h ? "closing" : "rejecting");
  if (mc.evals % 7001 == 1) mc_sample("%.300s: %s, %s", sp, VN[verdict], h ? "accepted" : "rejected");
}
#define NA -99999
static const int MV[] = { NA, -2147483647, -7, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 31, 32, 33, 64, 1000, 2147483647 };
static const int RV[] = { NA, -2147483647, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 31, 32, 64, 2147483647 };
#define CNT(a) ((int)(sizeof(a) / sizeof(a[0])))
static void addint(const char *key, int v) { if (v != NA) add("%s %d ", key, v); }

#ifdef CODEC_POLAR
static void explore(void) {
  static const int LV[] = { NA, -2147483647, -1, 0, 1, 2, 3, 8, 33, 2147483647, 1 << 30, 1 << 28 };
  int a, ml, mk, li, ci, pe, ord;
  for (a = 0; a < CNT(MV); a++) for (ml = 0; ml < 9; ml++) for (li = 0; li < CNT(LV); li++) {
    if (!mc_group()) continue;
    int m = MV[a], okm = m >= 1 && m <= 20, n = okm ? 1 << m : 8, len;
    if (m >= 14) n = 64;
    switch (ml) { case 0: len = -1; break; case 1: len = n; break; case 2: len = n - 1; break; case 3: len = n + 1; break;
      case 4: len = 1; break; case 5: len = 2 * n; break; case 6: len = n / 2 > 0 ? n / 2 : 1; break; case 7: len = n; break; default: len = 4 * n; }
    int small = m <= 5 || m > 13;
    if (!small && (li >= 6 || (m > 10 && LV[li + 2] > 3 && LV[li + 2] < 100))) continue;
    for (mk = 0; mk < (small ? 6 : 2); mk++) for (ci = 0; ci < 9; ci++) for (pe = 0; pe < (small ? 12 : 2); pe++) for (ord = 0; ord < (small && ci < 3 ? 3 : 1); ord++) {
      int i, k = 0, L = LV[small ? li : li + 2], verdict = MUST;
      if (!small && ((ci * 6 + li + mk) % (m > 10 ? 17 : 5) || pe > 1)) continue;
      if (small && (ml != 1) + (mk != 0) + (li != 6) + (ci != 0) + (pe != 0) + (ord != 0) > (mc.thorough ? 6 : 3)) continue;
      sp[0] = 0;
      for (i = 0; i < len; i++) { int b = mk == 0 ? i >= len / 2 : mk == 1 ? __builtin_popcount(i) * 2 >= (m > 0 && m < 20 ? m : 3) : mk == 2 ? 1 : mk == 3 ? i == len - 1 : mk == 4 ? 0 : (i % 3 != 0); rmask[i] = '0' + b; k += b; }
      rmask[len < 0 ? 0 : len] = 0;
      if (ord != 1) addint("c_m", m);
      if (ord == 2 && len > 0) add("info_bits_mask 0110 ");            // repeated keys: the last one counts
      if (len >= 0) add("info_bits_mask %s ", rmask);
      static const char *crcs[] = { NULL, "1", "11", "011", "1011", "00000111", "101110111", "10000000000000001", NULL };
      char big[80]; crc = crcs[ci];
      if (ci == 8) { memset(big, '1', k < 60 ? k + 1 : 60); big[k < 60 ? k + 1 : 60] = 0; crc = big; }
      if (ord == 2 && crc) add("ca_polar_crc 1 ");
      if (crc) add("ca_polar_crc %s ", crc);
      if (ord == 2) addint("list_size", 7);
      addint("list_size", L);
      if (ord == 1) addint("c_m", m);
      int cl = crc ? (int)strlen(crc) : 0;
      if (L == NA && ord == 2) L = 7;
      if (!okm || len != n || m >= 14) verdict = REJ;
      if (L <= 0 || k - cl < 1 || k - cl < cl) verdict = REJ;
      if (verdict == MUST && (L > 1000)) verdict = ANY;
      if (verdict == MUST && m > 12) verdict = ANY;
      // permutations are undocumented here: valid ones may be refused, invalid ones must be
      if (pe == 0) ;
      else {
        if (ord && !okm) verdict = REJ;
        add("permutations ");
        int mm = okm ? m : 3, j;
        if (pe == 1) { add("{ "); for (j = 0; j < mm; j++) add("%d ", j); add("}"); if (verdict == MUST) verdict = ANY; }
        if (pe == 2) { add("{ "); for (j = 0; j < mm; j++) add("%d ", mm - 1 - j); add("}"); if (verdict == MUST) verdict = ANY; }
        if (pe == 3) { add("{ "); for (j = 0; j < mm; j++) add("%d ", j ? j : 1); add("}"); verdict = m == 0 ? verdict : REJ; }
        if (pe == 4) { add("{ "); for (j = 0; j < mm; j++) add("%d ", j + 1); add("}"); verdict = REJ; }
        if (pe == 5) { add("{ "); for (j = 0; j < mm; j++) add("%d ", j ? j : -1); add("}"); verdict = REJ; }
        if (pe == 6) { add("{ "); for (j = 0; j + 1 < mm; j++) add("%d ", j); add("}"); if (mm > 1) verdict = REJ; else if (verdict == MUST) verdict = ANY; }
        if (pe == 7) { add("{ "); for (j = 0; j < mm; j++) add("%d ", j); verdict = REJ; }
        if (pe == 8) { for (j = 0; j < mm; j++) add("%d ", j); verdict = REJ; }
        if (pe == 9) { add("{ "); verdict = REJ; }
        if (pe == 10) { add("{ "); for (i = 0; i < 12000 / mm; i++) for (j = 0; j < mm; j++) add("%d ", j); add("}"); if (verdict == MUST) verdict = ANY; }
        if (pe == 11) { verdict = REJ; }
      }
      RC.kind = K_POLAR; RC.m = RC.r = okm ? m : 1; RC.mask = rmask;
      if (pe == 10 && (L > 2 || ci > 1 || mk > 2)) continue;
      if (pe == 2 && verdict != REJ && strchr(rmask, '0')) { // if accepted, usable() has to hold: the code is still the polar code
      }
      check(verdict);
      if (mc.nfail >= 20) return;
    }
  }
}
#elif defined(CODEC_GLP)
static void perms(int pe, int m, int full, int *v) {
  int j, i;
  if (pe == 0) return;
  add("permutations ");
  switch (pe) {
    case 1: add("{ "); for (j = 0; j < m; j++) add("%d ", j); add("} "); break;
    case 2: add("{ "); for (j = 0; j < m; j++) add("%d ", j); for (j = 0; j < m; j++) add("%d ", (j + 1) % m); for (j = 0; j < m; j++) add("%d ", m - 1 - j); add("} "); if (!full && *v == MUST) *v = ANY; break;
    case 3: add("{ "); for (j = 0; j < m; j++) add("%d ", j ? j : 1); add("} "); *v = REJ; break;       // repeated entry
    case 4: add("{ "); for (j = 0; j < m; j++) add("%d ", j + 1); add("} "); *v = REJ; break;           // out of range
    case 5: add("{ "); for (j = 0; j < m; j++) add("%d ", j ? j : -1); add("} "); *v = REJ; break;
    case 6: add("{ "); for (j = 0; j + 1 < m; j++) add("%d ", j); add("} "); *v = REJ; break;           // incomplete
    case 7: add("{ "); for (j = 0; j < m; j++) add("%d ", j); *v = REJ; break;                          // not closed
    case 8: for (j = 0; j < m; j++) add("%d ", j); *v = REJ; break;                                     // no group
    case 9: add("{ "); for (j = 0; j < m; j++) add("%d ", j); add("0 } "); *v = REJ; break;            // incomplete second
    case 10: add("{ "); for (i = 0; i < 12000 / m; i++) for (j = 0; j < m; j++) add("%d ", (j + i) % m); add("} "); if (!full && *v == MUST) *v = ANY; break; // very many
    case 11: add("{ "); for (j = 0; j < m; j++) add("%d ", j + 100000); add("} "); *v = REJ; break;
    case 12: add("{ "); *v = REJ; break;
    case 13: *v = REJ; break;
    case 14: add("{ } "); if (*v == MUST) *v = ANY; break;
    case 15: add("{ x y "); for (j = 2; j < m; j++) add("%d ", j); add("} "); *v = REJ; break;
  }
}
static void varl(int vi, int L, int *v) {
  switch (vi) {
    case 1: add("use_variable_list on distance_threshold { 1 2.5 %d 0 } ", L); break;
    case 2: add("use_variable_list on "); *v = REJ; break;
    case 3: add("use_variable_list on distance_threshold { 0 2.5 2 3 } "); *v = REJ; break;
    case 4: add("use_variable_list on distance_threshold { -3 2.5 } "); *v = REJ; break;
    case 5: add("use_variable_list on distance_threshold { 1 2 %d 4 } ", L + 1); if (*v == MUST) *v = ANY; break;    // larger than border_node_lsize
    case 6: add("use_variable_list on distance_threshold { 1 2 %d 4 } ", L * 40 + 7); if (*v == MUST) *v = ANY; break;
    case 7: add("use_variable_list on distance_threshold { "); for (int i = 0; i < 50; i++) add("1 %d ", i); add("} "); break;
    case 8: add("use_variable_list on distance_threshold { "); for (int i = 0; i < 51; i++) add("1 %d ", i); add("} "); *v = REJ; break;
    case 9: add("use_variable_list on distance_threshold { 1 2 1 } "); *v = REJ; break;
    case 10: add("use_variable_list on distance_threshold { 1 2 "); *v = REJ; break;
    case 11: add("use_variable_list off distance_threshold { 1 2 } "); break;
    case 12: add("use_variable_list on distance_threshold 1 2 "); *v = REJ; break;
    case 13: add("use_variable_list "); *v = REJ; break;
    case 14: add("use_variable_list on distance_threshold { } "); *v = REJ; break;
    case 0: break;
    default: { // one bad list size among up to 50
      static const int PS[] = { 1, 7, 8, 9, 15, 16, 31, 32, 48, 49 }; int p = PS[(vi - 15) / 3], q = (vi - 15) % 3;
      add("use_variable_list on distance_threshold { "); for (int i = 0; i <= p; i++) add("%d %d ", i < p ? 1 : q == 0 ? 0 : q == 1 ? -7 : L * 40 + 7, i); add("} ");
      if (q < 2) *v = REJ; else if (*v == MUST) *v = ANY; }
  }
}
static void explore(void) {
  static const int LV[] = { 1, 2, 5, NA, 0, -1, -2147483647, 2147483647, 1 << 30, 1 << 27, 1 << 28 };
  int a, b, ml, mk, li, pe, vi, ord;
  for (a = 0; a < CNT(MV); a++) for (b = 0; b < CNT(RV); b++) for (ml = 0; ml < 7; ml++) for (li = 0; li < CNT(LV); li++) {
    if (!mc_group()) continue;
    int m = MV[a], r = RV[b];
    int in = m >= 2 && m <= 13 && r >= 0 && r <= m;
    int rej = m == NA || r == NA || m <= 0 || m >= 31 || r < 0 || r > m;
    int small = m <= 4;
    int nodes = in ? rc_nodes(K_RM, m, r) : 6;
    for (mk = 0; mk < (small ? 5 : 2); mk++) for (pe = 0; pe < 16; pe++) for (vi = 0; vi < 45; vi++) for (ord = 0; ord < 3; ord++) {
      // full product for the small orders with at most two of the other dimensions away from their first value; at most one for the others
      int dev = (ml != 0) + (mk != 0) + (li != 0) + (pe != 0) + (vi != 0) + (ord != 0);
      if (dev > (mc.thorough ? 4 : in && small ? 3 : 1) + (small && rej ? 1 : 0)) continue;
      if (m > 8 && dev > 1) continue;
      if (ord == 2 && (ml == 3 || pe == 14)) continue;
      if (vi >= 15 && dev > 2) continue;
      if (vi == 13 && (pe || ord == 1)) continue; // the next key would be taken for the missing value
      if (mc.thorough && dev > 2 && m > 4) continue;
      int L = LV[li], v = rej ? REJ : (r < 2 || r >= m || m > 12) ? ANY : MUST, i, len;
      static const int lens[] = { 0, -1, 1, NA, -1000, 1000, 2000 };
      len = ml == 3 ? -1 : ml == 4 ? 1 : ml == 5 ? nodes * 2 : ml == 6 ? (nodes + 1) / 2 : nodes + lens[ml];
      int zeros = 0;
      for (i = 0; i < len; i++) { int o = mk == 0 ? 1 : mk == 1 ? i > 0 : mk == 2 ? i == len - 1 : mk == 3 ? 0 : (i & 1); rmask[i] = '0' + o; zeros += !o; }
      rmask[len < 0 ? 0 : len] = 0;
      if (len < 0 || (in && len != nodes) || !rmask[0]) v = REJ;
      if (in && len == nodes && zeros == len) v = REJ;
      if (L == NA || L <= 0) v = REJ;
      else if (L > 1000 && v == MUST) v = ANY;
      sp[0] = 0;
      if (ord != 1) addint("RM_m", m); 
      addint("RM_r", r);
      if (ord == 2 && in) { add("border_node_mask 1101 border_node_lsize 77 unknown 5 group { 1 2 } "); }
      if (len == 0) { add("border_node_mask "); }
      if (len >= 0) add("border_node_mask %s ", rmask);
      addint("border_node_lsize", L);
      if (ord == 2 && in && L == NA && v == REJ && len == nodes && zeros < len && !rej) v = ANY;
      varl(vi, L > 0 && L <= 1000 ? L : 2, &v);
      perms(pe, m >= 1 && m <= 13 ? m : 3, zeros == 0, &v);
      if (ord == 1) { addint("RM_m", m); if (pe) v = REJ; }
      if (ord == 2 && pe && in && m < 13) { add("RM_m %d ", m + 1); v = REJ; }   // mask and permutations were those of another code
      else if (pe == 10 && (ord || vi || ml)) continue;
      RC.kind = K_RM; RC.m = in ? m : 2; RC.r = in ? r : 1; RC.mask = rmask; crc = NULL;
      check(v);
      if (mc.nfail >= 20) return;
    }
  }
  // every entry of a permutation replaced by every other one, for codes of up to 2^20 symbols
  for (a = 5; a <= 20; a++) for (b = 0; b < 2; b++) if (mc_group()) for (ml = 0; ml < a; ml++) for (mk = 0; mk <= a; mk++) {
    if (mk == ml || (a < 15 && !mc.thorough && (ml + mk) % 3)) continue;
    int nodes = rc_nodes(K_RM, a, 2), i;
    for (i = 0; i < nodes; i++) rmask[i] = '1'; rmask[nodes] = 0;
    sp[0] = 0; add("RM_m %d RM_r 2 border_node_mask %s border_node_lsize 1 permutations { ", a, rmask);
    if (b) for (i = 0; i < a; i++) add("%d ", i);
    for (i = 0; i < a; i++) add("%d ", i == ml ? mk : i);
    add("} ");
    RC.kind = K_RM; RC.m = a; RC.r = 2; RC.mask = rmask; crc = NULL;
    check(REJ);
    if (mc.nfail >= 20) return;
  }
}
#else
static void explore(void) {
  int a, b, ord, i;
  static const char *pre[] = { "", "unknown 5 ", "group { 1 2 3 } ", "RM_m 2 RM_r 1 ", "RM_m 2 ", "RM_r 2 ", "group { a b} ", "flag on " };
  static const char *suf[] = { "", "unknown 7 ", "group { } ", "SNR { 1 2 3 } min_trials 5 " };
  for (a = 0; a < CNT(MV); a++) for (b = 0; b < CNT(RV); b++) if (mc_group())
    for (ord = 0; ord < 2; ord++) for (i = 0; i < CNT(pre) * CNT(suf); i++) {
      int m = MV[a], r = RV[b], pi = i % CNT(pre), v;
      sp[0] = 0; add("%s", pre[pi]);
      if (ord) addint("RM_r", r);
      addint("RM_m", m);
      if (!ord) addint("RM_r", r);
      add("%s", suf[i / CNT(pre)]);
      if (pi == 3 || pi == 4) if (m == NA) m = 2;
      if (pi == 3 && r == NA) r = 1;
      if (pi == 5 && r == NA) r = 2;
      if (m == NA || r == NA || m <= 0 || m >= 31 || r < 0 || r > m) v = REJ;
      else if (r == 0 || m > 12) v = ANY;
      else v = MUST;
      if (m > 9 && i > 1) continue;
#ifdef CODEC_DTRM0
      if (m > 10 && r > 5 && r < m - 1 && i) continue;
#endif
      RC.kind = K_RM; RC.m = m > 0 && m < 14 ? m : 1; RC.r = r < 0 || r > RC.m ? 0 : r; RC.mask = NULL; crc = NULL;
      check(v);
      if (mc.nfail >= 20) return;
    }
}
#endif

int main(int argc, char **argv) {
  mc_init(argc, argv);
  mc_quiet();
  printf("warm up\n");
  explore();
  mc_stat("accepted", nacc); mc_stat("rejected", nrej);
  return mc_done();
}
