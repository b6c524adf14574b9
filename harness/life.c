// C10: all operation sequences over two codec instances; every call must give the result it gives in a fresh process
// on a fresh instance (with differently filled memory), leave its input alone and give back all memory.
#include "cdc.h"
size_t __sanitizer_get_current_allocated_bytes(void);
const char *__asan_default_options(void) { return "max_malloc_fill_size=4096:malloc_fill_byte=255:max_free_fill_size=4096:free_fill_byte=170:detect_leaks=0:quarantine_size_mb=8:allocator_release_to_os_interval_ms=-1"; }

static const char *CF[] = {
#if defined(CODEC_DTRM0)
  "RM_m 3 RM_r 1", "RM_m 4 RM_r 2", "RM_m 3 RM_r 3", "RM_m 3", "RM_r 2",
#elif defined(CODEC_DTRM1)
  "RM_m 3 RM_r 1", "RM_m 4 RM_r 2", "RM_m 3 RM_r 3", "RM_m 3", "RM_r 2",
#elif defined(CODEC_GLP)
  "RM_m 4 RM_r 2 border_node_mask 110111 border_node_lsize 4",
  "RM_m 4 RM_r 2 border_node_mask 111111 border_node_lsize 3 permutations { 0 1 2 3 1 2 3 0 3 0 1 2 }",
  "RM_m 4 RM_r 2 border_node_mask 110111 border_node_lsize 9 use_variable_list on distance_threshold { 1 15 2 20 8 0 }",
  "RM_m 4 RM_r 2 border_node_mask 111111",
  "RM_m 4 RM_r 2 border_node_mask 111111 border_node_lsize 3 permutations { 0 1 2",
#else
  "c_m 3 info_bits_mask 00010111 list_size 4",
  "c_m 4 info_bits_mask 0001011110111111 ca_polar_crc 101 list_size 3",
  "c_m 3 info_bits_mask 01111111 ca_polar_crc 11 list_size 2",
  "c_m 3 info_bits_mask 00111111 ca_polar_crc 11",
  "c_m 4 ca_polar_crc 101 list_size 3",
#endif
};
#define NV 3
#define NCF 5
static const double SG[2] = {0.55, 1.4};
static int N[NV], K[NV];
typedef struct { int rc; int x[20]; double y[32]; } res_t;
static res_t RD[NV][2][2], RE[NV][2]; // fresh results

static void word(int cf, int w, int k, int *x) { for (int i = 0; i < k; i++) x[i] = w ? (i * 5 + i / 3 + cf) % 3 == 0 : i & 1; }
static int SEED[5];   // by configuration: the channel words whose decision depends on the deviation, if there are any
static void chan(int cf, int w, int n, double *y) {
  for (int i = 0; i < n; i++) {
    double s = w ? ((i * 3 + i / 4) & 2 ? 1 : -1) : -1; // a word near a codeword, and an arbitrary one
    y[i] = s * mc_gen(3 + w + cf + 10 * SEED[cf], i, 0.05, 1.9);
    if (!w && (i == 3 || i == 6)) y[i] = -y[i] * 0.6;
  }
}
// Exact-size buffers.
static void do_enc(void *h, int cf, int w, int n, int k, res_t *r, const char *seq) {
  int *x = (int *)malloc(k * sizeof(int)), *x0 = (int *)malloc(k * sizeof(int)); double *y = (double *)malloc(n * sizeof(double));
  word(cf, w, k, x); memcpy(x0, x, k * sizeof(int));
  memset(r, 0, sizeof(*r));
  r->rc = enc_bpsk(h, x, y); mc.trans++;
  if (memcmp(x, x0, k * sizeof(int))) mc_fail("input-modified", "encoding changed its input after %s", seq);
  memcpy(r->y, y, n * sizeof(double));
  free(x); free(x0); free(y);
}
static void do_dec(void *h, int cf, int w, int n, int k, res_t *r, const char *seq) {
  int *x = (int *)malloc(k * sizeof(int)); double *y = (double *)malloc(n * sizeof(double)), *y0 = (double *)malloc(n * sizeof(double));
  chan(cf, w, n, y); memcpy(y0, y, n * sizeof(double));
  memset(r, 0, sizeof(*r));
  r->rc = dec_bpsk(h, y, x); mc.trans++;
  if (memcmp(y, y0, n * sizeof(double))) mc_fail("input-modified", "decoding changed its input after %s", seq);
  memcpy(r->x, x, k * sizeof(int));
  free(x); free(y0); free(y);
}
static void set_sg(void *h, int s) {
  cdc_set_sg(h, SG[s]); mc.trans++;
#ifdef CODEC_GLP
  cdc_set_csnrn(h, s);
#endif
}

static int find_seed(int cf) { // executed in its own process: the seed under which most of what an instance may remember shows in a decision
  FILE *o = fdopen(dup(1), "wb"); int q, nk[2], best = 0, bsc = -1; res_t r[2][2];
  mc_quiet();
  for (q = 0; q < 2000 && bsc < 10; q++) {
    SEED[cf] = q;
    for (int s = 0; s < 2; s++) {
      void *h = cdc_open(CF[cf]); if (!h) return 9;
      nk[0] = cdc_get_n(h); nk[1] = cdc_get_k(h); if (nk[0] > 32 || nk[1] > 20 || nk[0] < 1 || nk[1] < 1) return 9;
      set_sg(h, s);
      for (int w = 0; w < 2; w++) do_dec(h, cf, w, nk[0], nk[1], &r[s][w], "");
      cdc_close(h);
    }
    int sc = 6;
#ifdef CODEC_GLP
    if (cf == 2) { // every stage decides somewhere, and it matters that it is that stage
      static const char *alt[3] = { "2 20 8 0", "1 15 8 0", "1 15 2 20" };
      sc = 0;
      for (int a = 0; a < 3; a++) {
        char sp[300]; int dif = 0; sprintf(sp, "RM_m 4 RM_r 2 border_node_mask 110111 border_node_lsize 9 use_variable_list on distance_threshold { %s }", alt[a]);
        void *h = cdc_open(sp); if (!h) return 9;
        for (int s = 0; s < 2; s++) { set_sg(h, s); for (int w = 0; w < 2; w++) { res_t t; do_dec(h, cf, w, nk[0], nk[1], &t, ""); if (memcmp(&t, &r[s][w], sizeof(t))) dif = 1; } }
        cdc_close(h); sc += 2 * dif;
      }
    }
#endif
    sc += !!memcmp(&r[0][0], &r[1][0], sizeof(res_t)) + !!memcmp(&r[0][1], &r[1][1], sizeof(res_t)) + !!memcmp(&r[0][0], &r[0][1], sizeof(res_t)) + !!memcmp(&r[1][0], &r[1][1], sizeof(res_t));
    if (sc > bsc) bsc = sc, best = q;
  }
  if (getenv("SEEDV")) fprintf(stderr, "seed %d score %d\n", best, bsc);
  fwrite(&best, sizeof(best), 1, o); fclose(o);
  return 0;
}
static int get_seed(const char *self, int cf) {
  char cmd[600]; int q = 0;
  snprintf(cmd, sizeof(cmd), "ASAN_OPTIONS=detect_leaks=0 '%s' --seed %d", self, cf);
  FILE *p = popen(cmd, "r"); if (fread(&q, sizeof(q), 1, p) != 1) q = 0;
  pclose(p); return q;
}
static int fresh(int cf, int s, int op) { // executed in its own process: prints the raw result
  FILE *o = fdopen(dup(1), "wb");
  mc_quiet();
  void *h = cdc_open(CF[cf]);
  if (!h) return 9;
  int nk[2] = {cdc_get_n(h), cdc_get_k(h)};
  res_t r;
  if (nk[0] > 32 || nk[1] > 20 || nk[0] < 1 || nk[1] < 1) return 9;
  if (op < 2) do_enc(h, cf, op, nk[0], nk[1], &r, "");
  else { set_sg(h, s); do_dec(h, cf, op - 2, nk[0], nk[1], &r, ""); }
  fwrite(nk, sizeof(nk), 1, o); fwrite(&r, sizeof(r), 1, o); fclose(o);
  return 0;
}
static int get_fresh(const char *self, int cf, int s, int op, res_t *r) {
  char cmd[600]; int nk[2];
  snprintf(cmd, sizeof(cmd), "ASAN_OPTIONS=malloc_fill_byte=0:max_malloc_fill_size=1000000:detect_leaks=0 '%s' --fresh %d %d %d %d", self, cf, s, op, SEED[cf]);
  FILE *p = popen(cmd, "r");
  int ok = fread(nk, sizeof(nk), 1, p) == 1 && fread(r, sizeof(*r), 1, p) == 1;
  if (pclose(p) != 0 || !ok) return 1;
  N[cf] = nk[0]; K[cf] = nk[1];
  return 0;
}

typedef struct { void *h; int cf, sg; size_t base; } slot_t;
static char sq[600];
static int run_seq(const int *op, int len) {
  slot_t s[2] = {{NULL, -1, -1}, {NULL, -1, -1}};
  size_t b0 = __sanitizer_get_current_allocated_bytes();
  res_t r;
  int bad0 = mc.nfail, i;
  uint64_t hs = 0;
  sq[0] = 0;
  for (i = 0; i < len && mc.nfail == bad0; i++) {
    slot_t *t = &s[op[i] >> 4]; int o = op[i] & 15;
    size_t b1 = __sanitizer_get_current_allocated_bytes();
    if (o < NCF) {
      sprintf(sq + strlen(sq), " init%d(%d)", op[i] >> 4, o);
      void *h = cdc_open(CF[o]);
      if (o < NV) {
        if (!h) { mc_fail("init", "valid configuration rejected after%s", sq); break; }
        if (cdc_get_n(h) != N[o] || cdc_get_k(h) != K[o]) mc_fail("dimension", "other dimensions after%s", sq);
        t->h = h; t->cf = o; t->sg = -1; t->base = b1;
      } else {
        if (h) { mc_fail("init", "incomplete configuration '%s' accepted", CF[o]); break; }
        if (__sanitizer_get_current_allocated_bytes() != b1) mc_fail("leak", "a rejected initialisation keeps %ld bytes:%s", (long)(__sanitizer_get_current_allocated_bytes() - b1), sq);
      }
    } else if (o < 7) { sprintf(sq + strlen(sq), " sg%d(%d)", op[i] >> 4, o - 5); set_sg(t->h, t->sg = o - 5); }
    else if (o < 9) {
      sprintf(sq + strlen(sq), " enc%d(%d)", op[i] >> 4, o - 7);
      do_enc(t->h, t->cf, o - 7, N[t->cf], K[t->cf], &r, sq); mc.evals++;
      if (memcmp(&r, &RE[t->cf][o - 7], sizeof(r))) mc_fail("enc-differs", "encoding differs from that of a fresh instance of '%s' after%s", CF[t->cf], sq);
    } else if (o < 11) {
      sprintf(sq + strlen(sq), " dec%d(%d)", op[i] >> 4, o - 9);
      do_dec(t->h, t->cf, o - 9, N[t->cf], K[t->cf], &r, sq); mc.evals++;
      if (memcmp(&r, &RD[t->cf][t->sg][o - 9], sizeof(r))) mc_fail("dec-differs", "decoding differs from that of a fresh instance of '%s' after%s", CF[t->cf], sq);
    } else { sprintf(sq + strlen(sq), " close%d", op[i] >> 4); cdc_close(t->h); t->h = NULL; t->cf = t->sg = -1; }
  }
  for (i = 0; i < 2; i++) if (s[i].h) cdc_close(s[i].h);
  size_t b2 = __sanitizer_get_current_allocated_bytes();
  if (mc.nfail == bad0 && b2 != b0) mc_fail("leak", "%ld bytes lost after closing all instances:%s", (long)(b2 - b0), sq);
  for (i = 0; i < len; i++) mc_state(hs = mc_h2(hs, op[i] + 1)); // a state is a history
  return mc.nfail != bad0;
}

static int ops[12], D, G;
// Slot states: cf -1 = closed. First opened slot is 0 (symmetry).
static void rec(int d, int *cf, int *sg) {
  if (d == G && !mc_group()) return;
  if (d == D) {
    if (mc_case()) { mc_note("%d ops", D); run_seq(ops, D); if ((mc.c & 1023) == 0) mc_tick(); if (mc.evals % 40001 == 7) mc_sample("%s", sq); }
    return;
  }
  for (int s = 0; s < 2; s++) {
    if (s == 1 && d == 0) continue;
    for (int o = 0; o < 12; o++) {
      if (cf[s] < 0 ? o >= NCF : o < NCF) continue;
      if (o >= 9 && o < 11 && sg[s] < 0) continue;
      int c0 = cf[s], g0 = sg[s];
      ops[d] = s << 4 | o;
      if (o < NV) cf[s] = o, sg[s] = -1;
      else if (o >= 5 && o < 7) sg[s] = o - 5;
      else if (o == 11) cf[s] = sg[s] = -1;
      rec(d + 1, cf, sg);
      cf[s] = c0; sg[s] = g0;
    }
  }
}

int main(int argc, char **argv) {
  if (argc > 5 && !strcmp(argv[1], "--fresh")) { SEED[atoi(argv[2])] = atoi(argv[5]); return fresh(atoi(argv[2]), atoi(argv[3]), atoi(argv[4])); }
  if (argc > 2 && !strcmp(argv[1], "--seed")) return find_seed(atoi(argv[2]));
  mc_init(argc, argv);
  mc_quiet();
  int cf, s, w, i, bad = 0;
  for (cf = 0; cf < NV; cf++) {
    SEED[cf] = get_seed(argv[0], cf);
    for (w = 0; w < 2; w++) bad |= get_fresh(argv[0], cf, 0, w, &RE[cf][w]);
    for (s = 0; s < 2; s++) for (w = 0; w < 2; w++) bad |= get_fresh(argv[0], cf, s, 2 + w, &RD[cf][s][w]);
  }
  if (bad) {
    mc_group(); mc.g = 0; mc_case(); mc_fail("fresh", "a fresh process cannot decode or encode with a valid configuration");
    return mc_done();
  }
  printf("warm up\n");
  // repeated calls keep no memory
  for (cf = 0; cf < NV; cf++) if (mc_group()) {
    mc_case(); mc_note("%s", CF[cf]);
    void *h = cdc_open(CF[cf]); res_t r;
    size_t b = 0;
    for (i = 0; i < 40 && h; i++) {
      set_sg(h, i & 1);
      do_enc(h, cf, i >> 1 & 1, N[cf], K[cf], &r, "repeated calls");
      do_dec(h, cf, i >> 2 & 1, N[cf], K[cf], &r, "repeated calls");
      mc.evals += 2;
      if (memcmp(&r, &RD[cf][i & 1][i >> 2 & 1], sizeof(r))) mc_fail("dec-differs", "call %d of '%s' differs from that of a fresh instance", i, CF[cf]);
      size_t b1 = __sanitizer_get_current_allocated_bytes();
      if (i == 7) b = b1;
      if (i > 7 && b1 > b) { mc_fail("leak", "'%s': %ld bytes more after %d more calls", CF[cf], (long)(b1 - b), i - 7); break; }
    }
    if (h) cdc_close(h);
  }
  // all sequences
  D = mc.thorough ? 7 : 6; G = 3;
  int c[2] = {-1, -1}, g[2] = {-1, -1};
  for (int d = 1; d <= D; d++) if (d >= G && (d == D || d == G)) { int t = D; D = d; rec(0, c, g); D = t; }
  return mc_done();
}
