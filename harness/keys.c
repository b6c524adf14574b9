// C12 / C13 at the codecs: parameters in any order and among unknown ones mean the same; malformed ones are survived.
#include "cdc.h"
#include "refcode.h"
size_t __sanitizer_get_current_allocated_bytes(void);
const char *__asan_default_options(void) { return "max_malloc_fill_size=4096:malloc_fill_byte=255:detect_leaks=0:quarantine_size_mb=8:allocator_may_return_null=1:max_allocation_size_mb=3000"; }
#if defined(CODEC_POLAR)
static const char *CF[][6] = {
  { "c_m 3", "info_bits_mask 00010111", "list_size 4" }, { "c_m 4", "info_bits_mask 0000001100111111", "list_size 3", "ca_polar_crc 101" }, { "c_m 2", "info_bits_mask 0111", "list_size 1", "ca_polar_crc 1" },
  { "c_m 4", "info_bits_mask 0001011101111111", "list_size 8", "ca_polar_crc 0011" } };
static const char *KEYS[] = { "c_m", "info_bits_mask", "list_size", "ca_polar_crc", "permutations" };
#elif defined(CODEC_GLP)
static const char *CF[][6] = {
  { "RM_m 3", "RM_r 2", "border_node_mask 111", "border_node_lsize 4", "permutations { 0 1 2 2 0 1 }" }, { "RM_m 4", "RM_r 2", "border_node_mask 011101", "border_node_lsize 5" },
  { "RM_m 4", "RM_r 2", "border_node_mask 111111", "border_node_lsize 6", "use_variable_list on", "distance_threshold { 1 2.5 6 0 }" }, { "RM_m 4", "RM_r 3", "border_node_mask 1111", "border_node_lsize 2", "permutations { 3 2 1 0 0 1 2 3 }", "use_variable_list off" } };
static const char *KEYS[] = { "RM_m", "RM_r", "border_node_mask", "border_node_lsize", "permutations", "use_variable_list", "distance_threshold" };
#else
static const char *CF[][6] = { { "RM_m 4", "RM_r 2" }, { "RM_m 3", "RM_r 1" }, { "RM_m 5", "RM_r 4" }, { "RM_m 2", "RM_r 2" } };
static const char *KEYS[] = { "RM_m", "RM_r" };
#endif
#define CNT(a) ((int)(sizeof(a) / sizeof(a[0])))
static int cfn(int c) { int n = 0; while (n < 6 && CF[c][n]) n++; return n; }
static char sp[200000];
static char *mentok[70000]; static int ntok;
static void toks(const char *s) { static char b[200000]; strcpy(b, s); ntok = 0; for (char *t = strtok(b, " "); t; t = strtok(NULL, " ")) mentok[ntok++] = t; }
// Everything observable: dimensions, codewords, decoded noise.
static uint64_t behaviour(void *h, int *ok) {
  int n = cdc_get_n(h), k = cdc_get_k(h), i, w; uint64_t s = mc_h2(n, k); *ok = 1;
  if (n < 1 || n > 1 << 20 || k < 1 || k > n) { *ok = 0; return s; }
  for (w = 0; w < (n > 256 ? 2 : 6); w++) {
    int *x = (int *)malloc(k * sizeof(int)), *xd = (int *)malloc(k * sizeof(int)); double *y = (double *)malloc(n * sizeof(double));
    for (i = 0; i < k; i++) x[i] = (mc_mix(w * 77 + i) >> 7) & 1;
    cdc_set_sg(h, w & 1 ? 0.7 : 0.5);
#ifdef CODEC_GLP
    cdc_set_csnrn(h, 0);
#endif
    enc_bpsk(h, x, y);
    s = mc_hbytes(s, y, n * sizeof(double));
    for (i = 0; i < k; i++) xd[i] = 99;
    int rc = dec_bpsk(h, y, xd); if (rc || memcmp(x, xd, k * sizeof(int))) *ok = 0;
    for (i = 0; i < n; i++) y[i] += mc_gen(w, i, -1.9, 1.9);
    rc = dec_bpsk(h, y, xd);
    for (i = 0; i < k; i++) if (xd[i] != 0 && xd[i] != 1) *ok = 0;
    s = mc_h2(mc_hbytes(s, xd, k * sizeof(int)), rc);
    free(x); free(xd); free(y); mc.trans += 3;
  }
  return s;
}
// ----- independent reading of the tokens. 1: complete, values are proper numbers.
static rcode RC; static char rmask[150000], crcs[150000]; static int LS;
static int num(const char *t, int *v) { const char *p = t; if (*p == '-' || *p == '+') p++; if (!*p || strspn(p, "0123456789") != strlen(p) || strlen(p) > 6) return 0; *v = atoi(t); return 1; }
static int ref_params(void) { // -1: has to be rejected, 0: not specified, 1: RC, crcs, LS are what is meant
  int i = 0, j, res = 1, m = -99, r = -99, L = -99; char *t; rmask[0] = crcs[0] = 0;
  toks(sp);
  while (i < ntok) {
    char *key = mentok[i++];
    if (key[0] == '{' || key[0] == '}') return 0;
    if (i >= ntok) return -1;
    int known = 0; for (j = 0; j < CNT(KEYS); j++) known |= !strcmp(KEYS[j], key);
    t = mentok[i++];
    if (!strcmp(t, "{")) {
      while (i < ntok && strcmp(mentok[i], "}")) { if (strchr(mentok[i], '{') || strchr(mentok[i], '}')) return 0; i++; }
      if (i >= ntok) return !known || !strcmp(key, "permutations") || !strcmp(key, "distance_threshold") ? -1 : 0; // (the program reports it)
      i++;
      if (known && strcmp(key, "permutations") && strcmp(key, "distance_threshold")) return 0;
      continue;
    }
    if (strchr(t, '{') || strchr(t, '}')) return 0;
    if (known && (!strcmp(key, "permutations") || !strcmp(key, "distance_threshold"))) return -1;
    if (!known) continue;
    if (!strcmp(key, "RM_m") || !strcmp(key, "c_m")) { if (!num(t, &m)) res = 0; }
    else if (!strcmp(key, "RM_r")) { if (!num(t, &r)) res = 0; }
    else if (!strcmp(key, "list_size") || !strcmp(key, "border_node_lsize")) { if (!num(t, &L)) res = 0; }
    else if (!strcmp(key, "info_bits_mask") || !strcmp(key, "border_node_mask") || !strcmp(key, "ca_polar_crc")) {
      if (strspn(t, "01") != strlen(t)) res = 0; else strcpy(key[0] == 'c' ? crcs : rmask, t);
    }
  }
#if defined(CODEC_POLAR)
  RC.kind = K_POLAR; r = m; RC.mask = rmask; if (m == -99 || L == -99 || !rmask[0]) return res ? -1 : 0;
#elif defined(CODEC_GLP)
  RC.kind = K_RM; RC.mask = rmask; if (m == -99 || r == -99 || L == -99 || !rmask[0]) return res ? -1 : 0;
#else
  RC.kind = K_RM; RC.mask = NULL; if (m == -99 || r == -99) return res ? -1 : 0;
#endif
  if (res == 1 && (m < 1 || m > 13 || r < 0 || r > m)) return m > 13 && m < 31 ? 0 : -1;
  RC.m = m; RC.r = r; LS = L;
  return res;
}
static void means(void *h) { // an accepted configuration is the one that was meant
  int n = 1 << RC.m, nd = 0, k, i, w, l = (int)strlen(crcs);
  if (RC.mask && (int)strlen(RC.mask) != (RC.kind == K_POLAR ? n : rc_nodes(K_RM, RC.m, RC.r))) { mc_fail("misread", "accepted although the mask does not match"); return; }
  k = rc_k_(&RC, RC.m, RC.r, &nd) - l;
  if (cdc_get_n(h) != n || cdc_get_k(h) != k) { mc_fail("misread", "n=%d k=%d instead of %d %d", cdc_get_n(h), cdc_get_k(h), n, k); return; }
  for (w = 0; w < 3; w++) {
    int *x = (int *)malloc((k + l) * sizeof(int)), *cw = (int *)malloc(n * sizeof(int)); double *y = (double *)malloc(n * sizeof(double));
    for (i = 0; i < k; i++) x[i] = (mc_mix(w * 77 + i) >> 9) & 1;
    enc_bpsk(h, x, y);
    if (l) rc_crc(x, k, crcs, x + k);
    rc_enc(&RC, x, cw);
    for (i = 0; i < n; i++) if (y[i] != (cw[i] ? 1 : -1)) { mc_fail("misread", "encodes another code"); break; }
    free(x); free(cw); free(y);
  }
}
static void add(const char *s) { strcat(sp, s); strcat(sp, " "); }
static const char *UNK[] = { "unknown 5", "grp { 1 2 }", "empty { }", "res_file RM_m", "text c_m", "grp2 { RM_m 7 RM_r 1 c_m 2 border_node_mask 1 }", "SNR_val_trn { 1 1000 1.25 50 }", "f list_size", "flag on", "RM_mm 9", "rm_m 2",
  "permutation { 9 9 }", "g { info_bits_mask }", "border_node_mask_ 0", "include_ x", "ca_polar_crc2 11111111" };
#if PROP == 12
static void explore(void) {
  int c, i, j, a, b, g, g2, u, ok;
  for (c = 0; c < 4; c++) {
    int n = cfn(c), f = 1; for (i = 2; i <= n; i++) f *= i;
    sp[0] = 0; for (i = 0; i < n; i++) add(CF[c][i]);
    void *h = cdc_open(sp); if (!h) { if (mc_group() && mc_case()) mc_fail("rejected", "'%s' is rejected", sp); continue; }
    uint64_t base = behaviour(h, &ok); cdc_close(h);
    for (a = 0; a < f; a++) {
      if (!mc_group()) continue;
      int ord[6], used = 0, w = a, pm = -1, pp = -1; for (i = 0; i < n; i++) { int r = w % (n - i); w /= n - i; for (j = 0; j < n; j++) if (!(used >> j & 1) && r-- == 0) { ord[i] = j; used |= 1 << j; break; } }
      for (i = 0; i < n; i++) { if (!strncmp(CF[c][ord[i]], "RM_m", 4)) pm = i; if (!strncmp(CF[c][ord[i]], "permutations", 12)) pp = i; }
      // b: unknown parameters in no, one or two gaps
      for (b = -1; b < (n + 1) * (n + 1) * CNT(UNK) * (mc.thorough ? CNT(UNK) : n > 4 ? 1 : 3); b++) {
        int v = b; g = v % (n + 1); v /= n + 1; g2 = v % (n + 1); v /= n + 1; u = v % CNT(UNK); v /= CNT(UNK);
        if (!mc_case()) continue;
        int u2 = mc.thorough ? v : (u * 3 + 1 + v * 5 + g) % CNT(UNK);
        if (!mc.thorough && n > 4 && (a + b) % 3 > 0 && a) continue;
        sp[0] = 0;
        for (i = 0; i <= n; i++) { if (b >= 0 && i == g) add(UNK[u]); if (b >= 0 && i == g2) add(UNK[u2]); if (i < n) add(CF[c][ord[i]]); }
        mc_note("%s", sp); mc.evals++; mc_tick(); mc_state(mc_hstr(3, sp));
        size_t m0 = __sanitizer_get_current_allocated_bytes();
        h = cdc_open(sp);
        if (!h) { if (pp < 0 || pp > pm) mc_fail("rejected", "'%s' is rejected", sp); }
        else { uint64_t q = behaviour(h, &ok); if (q != base) mc_fail("order", "'%s' means another code or decoder than in the documented order and without unknown parameters", sp); cdc_close(h); }
        if (__sanitizer_get_current_allocated_bytes() != m0) mc_fail("leak", "'%s': memory is lost", sp);
        if (b == a % 97) mc_sample("%s", sp);
      }
    }
  }
}
#else
static const char *JUNK[] = { "", "0", "-1", "1", "2", "7", "x", "3x", "{", "}", "{}", "99999999999", "-99999999999", "1e9", "nan", "on", "RM_m", "RM_r", "c_m", "0101", "222", "%", "permutations", "info_bits_mask", "border_node_mask", "1.5", "\xff", "{ }", "{ 1 }" };
static void judge(void) {
  int v, ok;
  mc_note("%s", sp); mc.evals++; mc_tick(); mc_state(mc_hstr(4, sp));
  v = ref_params();
  size_t m0 = __sanitizer_get_current_allocated_bytes();
  void *h = cdc_open(sp);
  if (h) {
    if (v < 0) mc_fail("not-reported", "'%.300s' is accepted", sp);
    else { behaviour(h, &ok); if (!ok) mc_fail("unusable", "'%.300s' is accepted but does not work", sp); if (v > 0) means(h); }
    cdc_close(h);
  }
  if (__sanitizer_get_current_allocated_bytes() != m0) mc_fail("leak", "'%.300s': memory is lost", sp);
}
static void edit(const char **t, int n, int at, int j) { // j: -1 delete, -2 duplicate, -3 cut here, -4 swap with the next, else replace by / (j >= CNT) insert junk
  int i;
  for (i = 0; i < n; i++) {
    if (i == at) {
      if (j == -1) continue; if (j == -3) break;
      if (j == -2) add(t[i]);
      if (j == -4 && i + 1 < n) { add(t[i + 1]); add(t[i]); i++; continue; }
      if (j >= 0 && j < CNT(JUNK)) { add(JUNK[j]); continue; }
      if (j >= CNT(JUNK)) add(JUNK[j - CNT(JUNK)]);
    }
    add(t[i]);
  }
}
static void explore(void) {
  int c, i, j, a, b, e;
  for (c = 0; c < 4; c++) {
    static char base[5000]; const char *t[60], *t2[60]; static char buf[20000]; int n;
    base[0] = 0; for (i = 0; i < cfn(c); i++) { strcat(base, CF[c][i]); strcat(base, " "); }
    toks(base); n = ntok; char *bp = buf; for (i = 0; i < n; i++) { strcpy(bp, mentok[i]); t[i] = bp; bp += strlen(bp) + 1; }
    // all pairs of token edits
    for (a = 0; a < n; a++) for (j = -4; j < 2 * CNT(JUNK); j++) {
      if (!mc_group()) continue;
      sp[0] = 0; edit(t, n, a, j); static char s1[5000]; strcpy(s1, sp);
      if (mc_case()) judge();
      toks(s1); int n2 = ntok; static char buf2[20000]; bp = buf2; for (i = 0; i < n2; i++) { strcpy(bp, mentok[i]); t2[i] = bp; bp += strlen(bp) + 1; }
      for (b = 0; b < n2; b++) for (e = -4; e < 2 * CNT(JUNK); e++) {
        if (!mc_case()) continue;
        if (!mc.thorough && n > 8 && e >= 0 && (a + b * 5 + j + 3 * e) % 5) continue;
        sp[0] = 0; edit(t2, n2, b, e); judge();
        if (b == a && e == j + 1) mc_sample("%s", sp);
        if (mc.nfail >= 20) return;
      }
    }
    // cut at every byte, every byte dropped or doubled
    for (i = 0; i < (int)strlen(base); i++) if (mc_group()) for (j = 0; j < 3; j++) if (mc_case()) {
      strcpy(sp, base); if (j == 0) sp[i] = 0; else if (j == 1) memmove(sp + i, base + i + 1, strlen(base + i)); else memmove(sp + i + 1, base + i, strlen(base + i) + 1);
      judge();
    }
    // values and groups of any length
    for (a = 0; a < n; a++) for (i = 1; i < 18; i++) if (mc_group()) for (j = 0; j < 5; j++) if (mc_case()) {
      static char big[140000]; int l = (1 << i) - (i % 3), q;
      if (j < 3) { memset(big, "107"[j], l); big[l] = 0; } else { big[0] = 0; char *p = big; for (q = 0; q < l && p < big + 130000; q++) p += sprintf(p, "%d ", j == 3 ? q % 4 : 1 + q % 2); }
      sp[0] = 0; for (q = 0; q < n; q++) add(q == a ? big : t[q]);
      judge();
    }
  }
  if (mc_group() && mc_case()) { sp[0] = 0; judge(); }
  for (i = 0; i < CNT(KEYS); i++) for (j = 0; j < CNT(JUNK); j++) for (a = 0; a < CNT(JUNK); a++) if (mc_group() && mc_case()) { sp[0] = 0; add(KEYS[i]); add(JUNK[j]); add(JUNK[a]); judge(); }
}
#endif
int main(int argc, char **argv) {
  mc_init(argc, argv);
  mc_quiet();
  printf("warm up\n");
  explore();
  return mc_done();
}
