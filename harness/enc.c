// C01 / C02: encoders against the recursive definition.
#include "cdc.h"
#include "refcode.h"

static int words_all;   // number of information bits up to which all words are enumerated

static void check_word(void *cdc, const rcode *rc, const char *crc, int k, int n, const int *x0, uint64_t cfgh, const char *spec, int exhaustive) {
  int cl = crc ? (int)strlen(crc) : 0, i;
  int *x = (int *)malloc(k * sizeof(int));
  double *y = (double *)malloc(n * sizeof(double));
  int ref[n], xx[k + cl + 1];
  memcpy(x, x0, k * sizeof(int));
  memcpy(xx, x0, k * sizeof(int));
  if (cl) rc_crc(x0, k, crc, xx + k);
  rc_enc(rc, xx, ref);
  for (i = 0; i < n; i++) y[i] = -7.0;
  int erc = enc_bpsk(cdc, x, y);
  mc.evals++; mc.trans++;
  char b1[5000], b2[5000], b3[5000];
  if (erc) mc_fail("return", "%s: word %s is encoded, but %d is returned", spec, k < 5000 ? bits2s(b1, x0, k) : "", erc);
  if (memcmp(x, x0, k * sizeof(int))) mc_fail("input-modified", "%s: word %s changed by the encoder", spec, k < 5000 ? bits2s(b1, x0, k) : "");
  for (i = 0; i < n; i++) if (y[i] != (ref[i] ? 1.0 : -1.0)) break;
  if (i < n) {
    int g[n], j;
    for (j = 0; j < n; j++) g[j] = y[j] == 1.0 ? 1 : y[j] == -1.0 ? 0 : 2;
    if (n < 2048) mc_fail("codeword", "%s: info %s encoded to %s (2: neither -1 nor 1), definition gives %s",
      spec, bits2s(b1, x0, k), bits2s(b2, g, n), bits2s(b3, ref, n));
    else mc_fail("codeword", "%s: wrong symbol %d", spec, i);
  }
  if (mc_state(mc_hbytes(cfgh, y, n * sizeof(double))) == 0 && exhaustive && i == n)
    mc_fail("injective", "%s: word %s has the codeword of another word", spec, bits2s(b1, x0, k));
  if (mc.evals % 1000 == 1) mc_sample("%s: info %s -> symbols as defined", spec, k < 200 ? bits2s(b1, x0, k) : "(long)");
  free(x); free(y);
}

static void check_cfg(const char *spec, const rcode *rc, const char *crc) {
  int cl = crc ? (int)strlen(crc) : 0;
  int n = 1 << rc->m, k = rc_k(rc) - cl, i, j;
  if (k <= 0 || (cl && k < cl)) return;
  if (!mc_case()) return;
  if (mc_hit()) mc_note("%s", spec);
  void *cdc = cdc_open(spec);
  if (!cdc) { mc_fail("rejected", "valid configuration '%s' rejected", spec); return; }
  if (cdc_get_n(cdc) != n) mc_fail("length", "%s: length %d, expected %d", spec, cdc_get_n(cdc), n);
  else if (cdc_get_k(cdc) != k) mc_fail("dimension", "%s: dimension %d, expected %d", spec, cdc_get_k(cdc), k);
  else {
    cdc_set_sg(cdc, 1.0);
    uint64_t h = mc_hstr(17 + mc.g * 4096 + mc.c, spec); // the same configuration may come again in another group
    int x[k];
    if (k <= words_all) {
      for (long w = 0; w < (1L << k); w++) {
        for (i = 0; i < k; i++) x[i] = (w >> i) & 1;
        check_word(cdc, rc, crc, k, n, x, h, spec, 1);
      }
    } else {
      memset(x, 0, sizeof(x)); check_word(cdc, rc, crc, k, n, x, h, spec, 0);
      for (i = 0; i < k; i++) x[i] = 1;
      check_word(cdc, rc, crc, k, n, x, h, spec, 0);
      for (i = 0; i < k; i++) { // all unit words and their complements
        memset(x, 0, sizeof(x)); x[i] = 1; check_word(cdc, rc, crc, k, n, x, h, spec, 0);
        for (j = 0; j < k; j++) x[j] ^= 1;
        check_word(cdc, rc, crc, k, n, x, h, spec, 0);
      }
      if (k <= 64) for (i = 0; i < k; i++) for (j = 0; j < i; j++) { // all pairs
        memset(x, 0, sizeof(x)); x[i] = x[j] = 1; check_word(cdc, rc, crc, k, n, x, h, spec, 0);
      }
      for (int p = 1; p <= 8 && p < k; p++) { // all periodic words of small period, each phase
        for (int ph = 0; ph <= p; ph++) {
          for (i = 0; i < k; i++) x[i] = ((i + ph) % (p + 1)) == 0;
          check_word(cdc, rc, crc, k, n, x, h, spec, 0);
        }
      }
    }
  }
  cdc_close(cdc);
}

int main(int argc, char **argv) {
  mc_init(argc, argv); mc_quiet();
  int th = mc.thorough;
  char spec[9000];
#if defined(CODEC_POLAR)
  static const char *crcs[64]; int nc = 0;
  static char cb[64][8];
  for (int l = 1; l <= 4; l++) for (int v = 0; v < (1 << l); v++) {
    for (int i = 0; i < l; i++) cb[nc][i] = '0' + ((v >> (l - 1 - i)) & 1);
    crcs[nc] = cb[nc]; nc++;
  }
  words_all = th ? 12 : 8;
  char mask[8193];
  for (int m = 1; m <= 3; m++) for (long mk = 1; mk < (1L << (1 << m)); mk++) {
    if (!mc_group()) continue;
    int n = 1 << m;
    for (int i = 0; i < n; i++) mask[i] = '0' + ((mk >> i) & 1);
    mask[n] = 0;
    rcode rc = { K_POLAR, m, m, mask };
    for (int L = 1; L <= 3; L += 2) {
      sprintf(spec, "c_m %d info_bits_mask %s list_size %d", m, mask, L); check_cfg(spec, &rc, NULL);
    }
    for (int ci = 0; ci < nc; ci++) {
      sprintf(spec, "c_m %d info_bits_mask %s ca_polar_crc %s list_size 2", m, mask, crcs[ci]); check_cfg(spec, &rc, crcs[ci]);
    }
  }
  words_all = th ? 10 : 5;
  for (long mk = 1; mk < 65536; mk++) {
    if (!mc_group()) continue;
    if (!th && (__builtin_popcountl(mk) > 6 && __builtin_popcountl(mk) < 15)) { if (mk % 8) continue; }
    for (int i = 0; i < 16; i++) mask[i] = '0' + ((mk >> i) & 1);
    mask[16] = 0;
    rcode rc = { K_POLAR, 4, 4, mask };
    sprintf(spec, "c_m 4 info_bits_mask %s list_size 1", mask); check_cfg(spec, &rc, NULL);
    sprintf(spec, "c_m 4 info_bits_mask %s ca_polar_crc 1011 list_size 4", mask); check_cfg(spec, &rc, "1011");
  }
  words_all = 8;
  // List sizes: every one up to 300, and around the powers of two.
  for (int q = 1; q <= 300 + 24; q++) for (int t = 0; t < 6; t++) {
    if (!mc_group()) continue;
    int L = q <= 300 ? q : (256 << ((q - 301) / 3)) + (q - 301) % 3 - 1, m = t < 3 ? 2 : 3;
    static const char *LM[6] = { "0111", "1111", "0010", "00010111", "11111110", "01111111" };
    if (L > 66000 / (1 << m)) continue;
    rcode rc = { K_POLAR, m, m, LM[t] };
    if (t != 2 && t % 2) { sprintf(spec, "c_m %d info_bits_mask %s ca_polar_crc 1 list_size %d", m, LM[t], L); check_cfg(spec, &rc, "1"); }
    else { sprintf(spec, "c_m %d info_bits_mask %s list_size %d", m, LM[t], L); check_cfg(spec, &rc, NULL); }
  }
  // Larger lengths: masks by index weight threshold, by index range, and by residue.
  for (int m = 5; m <= (th ? 11 : 10); m++) for (int f = 0; f < 3 * m; f++) {
    if (!mc_group()) continue;
    int n = 1 << m, t = f / 3;
    for (int i = 0; i < n; i++) {
      int on = f % 3 == 0 ? __builtin_popcount(i) >= t : f % 3 == 1 ? i >= (n * t) / m : (i % (t + 2)) != 0;
      mask[i] = on ? '1' : '0';
    }
    mask[n] = 0;
    rcode rc = { K_POLAR, m, m, mask };
    const char *crc = f % 2 ? "11010101" : m % 2 ? "0000011000110001" : "101";
    if (m >= 9 && t % 3) crc = NULL;
    sprintf(spec, "c_m %d info_bits_mask %s list_size 2", m, mask);
    if (m < 9 || !crc) check_cfg(spec, &rc, NULL);
    if (crc) { sprintf(spec, "c_m %d info_bits_mask %s ca_polar_crc %s list_size 2", m, mask, crc); check_cfg(spec, &rc, crc); }
  }
#else
#if defined(CODEC_GLP)
  words_all = 11;
  for (int q = 1; q <= 300 + 24; q++) for (int t = 0; t < 3; t++) { // list sizes as above
    if (!mc_group()) continue;
    int L = q <= 300 ? q : (256 << ((q - 301) / 3)) + (q - 301) % 3 - 1;
    static const char *LM[3] = { "111", "011", "110111" };
    if (L > 8200) continue;
    rcode rc = { K_RM, t < 2 ? 3 : 4, 2, LM[t] };
    sprintf(spec, "RM_m %d RM_r 2 border_node_mask %s border_node_lsize %d", rc.m, LM[t], L); check_cfg(spec, &rc, NULL);
  }
#endif
  words_all = th ? 16 : 11;
  for (int m = 1; m <= (th ? 12 : 10); m++) for (int r = 1; r <= m; r++) {
    rcode rc = { K_RM, m, r, NULL };
#if defined(CODEC_GLP)
    if (r < 2 || r >= m) continue;
    int nodes = rc_nodes(K_RM, m, r);
    char mask[5000];
    if (nodes > 4000) continue;
    if (nodes <= 10) {
      if (!th) words_all = nodes > 6 ? 6 : 11;
      for (long mk = 1; mk < (1L << nodes); mk++) {
        if (!mc_group()) continue;
        for (int i = 0; i < nodes; i++) mask[i] = '0' + ((mk >> i) & 1);
        mask[nodes] = 0; rc.mask = mask;
        sprintf(spec, "RM_m %d RM_r %d border_node_mask %s border_node_lsize %d", m, r, mask, 1 + (int)(mk % 3));
        check_cfg(spec, &rc, NULL);
      }
    } else {
      // full code, every single masked-out node, every single kept node, prefixes
      for (int f = 0; f < 3 * nodes + 1; f++) {
        if (nodes > 60 && f % (nodes / 16)) continue;
        if (!mc_group()) continue;
        for (int i = 0; i < nodes; i++) {
          int on = f == 3 * nodes ? 1 : f % 3 == 0 ? i != f / 3 : f % 3 == 1 ? i == f / 3 : i >= f / 3;
          mask[i] = '0' + on;
        }
        mask[nodes] = 0; rc.mask = mask;
        sprintf(spec, "RM_m %d RM_r %d border_node_mask %s border_node_lsize 1", m, r, mask);
        check_cfg(spec, &rc, NULL);
      }
    }
#else
    if (!mc_group()) continue;
    sprintf(spec, "RM_m %d RM_r %d", m, r); check_cfg(spec, &rc, NULL);
    sprintf(spec, "RM_r %d RM_m %d", r, m); check_cfg(spec, &rc, NULL);
#endif
  }
#endif
  return mc_done();
}
