// C26: allocations fail at every point (and pair of points) of a codec's life. A call during which an allocation
// failed reports an error or gives the right result; nothing is lost; the next call with memory at hand gives the right result.
#include "cdc.h"
size_t __sanitizer_get_current_allocated_bytes(void);
const char *__asan_default_options(void) { return "max_malloc_fill_size=65536:malloc_fill_byte=190:max_free_fill_size=65536:free_fill_byte=170:detect_leaks=0:quarantine_size_mb=4:allocator_release_to_os_interval_ms=-1"; }
#include "memfault.h"

static const char *CF[] = {
#if defined(CODEC_DTRM0) || defined(CODEC_DTRM1)
  "RM_m 3 RM_r 1", "RM_m 4 RM_r 2", "RM_m 5 RM_r 3", "RM_m 3 RM_r 3", "RM_m 1 RM_r 1", "RM_m 6 RM_r 2", "RM_m 5 RM_r 1", "RM_m 7 RM_r 4", "RM_m 3", "RM_m 2 RM_r 4",
#elif defined(CODEC_GLP)
  "RM_m 4 RM_r 2 border_node_mask 110111 border_node_lsize 4",
  "RM_m 4 RM_r 2 border_node_mask 111111 border_node_lsize 3 permutations { 0 1 2 3 1 2 3 0 3 0 1 2 }",
  "RM_m 4 RM_r 2 border_node_mask 101111 border_node_lsize 8 use_variable_list on distance_threshold { 1 3 4 9 8 0 }",
  "RM_m 5 RM_r 2 border_node_lsize 2 border_node_mask 0111111111",
  "RM_m 3 RM_r 1 border_node_mask 111 border_node_lsize 1 permutations { 2 1 0 }",
  "RM_m 6 RM_r 3 border_node_mask 01111111111111111111 border_node_lsize 16",
  "RM_m 4 RM_r 2 border_node_mask 111111",
  "RM_m 4 RM_r 2 border_node_mask 111111 border_node_lsize 3 permutations { 0 1 2 2 }",
  "RM_m 4 RM_r 2 border_node_mask 11111 border_node_lsize 3",
  "RM_m 4 RM_r 2 border_node_mask 111111 border_node_lsize 3 permutations { 0 1 2",
  // Accepted at the first stage, whose word differs from the last stage's.
  "RM_m 4 RM_r 2 border_node_mask 111111 border_node_lsize 16 use_variable_list on distance_threshold { 1 30 16 0 }",
  "RM_m 5 RM_r 3 border_node_mask 1111111111 border_node_lsize 16 use_variable_list on distance_threshold { 1 50 16 0 }",
  "RM_m 6 RM_r 2 border_node_mask 111111111111111 border_node_lsize 16 use_variable_list on distance_threshold { 1 170 16 0 }",
#else
  "c_m 3 info_bits_mask 00010111 list_size 4",
  "c_m 4 info_bits_mask 0001011101111111 ca_polar_crc 101 list_size 3",
  "c_m 3 info_bits_mask 01111111 ca_polar_crc 11 list_size 2",
  "c_m 5 info_bits_mask 00000001000101110001011101111111 ca_polar_crc 0011 list_size 8",
  "c_m 4 info_bits_mask 0000000100010111 list_size 1",
  "c_m 4 info_bits_mask 0001011101111111 ca_polar_crc 1 list_size 4 permutations { 0 1 2 3 3 2 1 0 }",
  "c_m 6 info_bits_mask 0000000000000001000000010001011100000001000101110001011101111111 list_size 32",
  "c_m 3 info_bits_mask 00111111 ca_polar_crc 11",
  "c_m 4 ca_polar_crc 101 list_size 3",
  "c_m 3 info_bits_mask 00000001 ca_polar_crc 11 list_size 4",
#endif
};
#define NCF (int)(sizeof(CF) / sizeof(CF[0]))
#define NMAX 128
// one history: initialise; encode; decode (word near the codeword); encode another; decode an arbitrary word; close
static int ref_ok, rn, rk, ref_rc[4]; static double ref_y[2][NMAX]; static int ref_x[2][NMAX];
static void chan(int w, int n, double *y) {
  for (int i = 0; i < n; i++) y[i] = w == 0 ? ref_y[0][i] * mc_gen(4, i, 0.3, 1.7) * (i == n / 3 ? -0.4 : 1) : (mc_mix(i * 31 + 4) & 64 ? 1 : -1) * mc_gen(7, i, 0.05, 1.9);
}
static void word(int w, int k, int *x) { for (int i = 0; i < k; i++) x[i] = w ? (i * 5 + i / 3) % 3 == 0 : i & 1; }
static int call(void *h, int op, double *y, int *x, int *faulted) { // op 0/2: encode, 1/3: decode; x, y exact-size
  int rc;
  mf_failed = 0; mf_on = 1;
  rc = op & 1 ? dec_bpsk(h, y, x) : enc_bpsk(h, x, y);
  mf_on = 0; *faulted = mf_failed; mc.trans++;
  return rc;
}
static int same_y(const double *a, const double *b, int n) { for (int i = 0; i < n; i++) if (a[i] != b[i]) return 0; return 1; }
static void open_(const char *p, void **h, int *rc, int *faulted) {
  char *s = (char *)malloc(strlen(p) + 1); strcpy(s, p);
  mf_failed = 0; mf_on = 1;
  *h = (void *)s; // a value that has to be replaced
  *rc = cdc_init(s, h);
  mf_on = 0; *faulted = mf_failed; mc.trans++;
  if (*rc) *h = NULL;
  free(s);
}
static void set_sg(void *h) {
  cdc_set_sg(h, 0.7);
#ifdef CODEC_GLP
  cdc_set_csnrn(h, 0);
#endif
}
static void history(const char *par, const char *p, int reference) {
  void *h; int rc, f, op, try_;
  size_t m0 = __sanitizer_get_current_allocated_bytes();
  for (try_ = 0; ; try_++) {
    size_t m1 = __sanitizer_get_current_allocated_bytes();
    open_(p, &h, &rc, &f);
    if (reference) { ref_ok = rc == 0; break; }
    if (rc == 0 && !ref_ok) { mc_fail("accepted", "'%s': initialisation without memory accepted what it rejects with", par); cdc_close(h); return; }
    if (rc && __sanitizer_get_current_allocated_bytes() != m1) { mc_fail("init-leak", "'%s': failed initialisation (%s) changed the allocated memory by %ld bytes", par, mf_desc(), (long)(__sanitizer_get_current_allocated_bytes() - m1)); return; }
    if (rc == 0) break;
    if (!f && ref_ok) { mc_fail("init-after", "'%s': initialisation fails with memory at hand after it failed without (%s)", par, mf_desc()); return; }
    if (!f) return; // rejected as it is to be
    if (try_ > 200) { mc_fail("retry", "'%s': never initialised", par); return; }
  }
  if (!h) return;
  int n = cdc_get_n(h), k = cdc_get_k(h);
  if (reference) { rn = n; rk = k; if (n > NMAX) exit(3); }
  if (n != rn || k != rk) { mc_fail("dimensions", "'%s': n, k are %d, %d instead of %d, %d after failed allocations (%s)", par, n, k, rn, rk, mf_desc()); cdc_close(h); return; }
  set_sg(h);
  for (op = 0; op < 4; op++) for (try_ = 0; ; try_++) {
    int *x = (int *)malloc(k * sizeof(int)); double *y = (double *)malloc(n * sizeof(double)); int done = 0;
    size_t m1 = __sanitizer_get_current_allocated_bytes();
    if (op & 1) chan(op / 2, n, y); else word(op / 2, k, x);
    rc = call(h, op, y, x, &f);
    if (reference) { ref_rc[op] = rc; if (op & 1) memcpy(ref_x[op / 2], x, k * sizeof(int)); else memcpy(ref_y[op / 2], y, n * sizeof(double)); done = 1; }
    else {
      int right = rc == ref_rc[op] && (op & 1 ? !memcmp(x, ref_x[op / 2], k * sizeof(int)) : same_y(y, ref_y[op / 2], n));
      int err = op & 1 ? rc != 0 && rc != 1 : rc != 0 && rc != ref_rc[op]; // 1: an erasure is a decoder's result
      if (!right && !f) mc_fail("after", "'%s': %s with memory at hand is wrong after failed allocations (%s): returns %d", par, op & 1 ? "decoding" : "encoding", mf_desc(), rc);
      if (!right && f && !err) mc_fail("unreported", "'%s': %s returns %d with a wrong result although an allocation failed (%s)", par, op & 1 ? "decoding" : "encoding", rc, mf_desc());
      if (__sanitizer_get_current_allocated_bytes() != m1) mc_fail("leak", "'%s': %s left %ld bytes allocated (%s)", par, op & 1 ? "decoding" : "encoding", (long)(__sanitizer_get_current_allocated_bytes() - m1), mf_desc());
      done = right || mc.nfail;
      if (try_ > 200) { mc_fail("retry", "'%s': call never succeeds", par); done = 1; }
    }
    free(x); free(y);
    if (done) break;
  }
  cdc_close(h);
  if (!reference && __sanitizer_get_current_allocated_bytes() != m0) mc_fail("close-leak", "'%s': %ld bytes are left after closing (%s)", par, (long)(__sanitizer_get_current_allocated_bytes() - m0), mf_desc());
}
int main(int argc, char **argv) {
  mc_init(argc, argv); mc_quiet();
  static char ob[5000], eb[5000]; setvbuf(stdout, ob, _IOFBF, sizeof(ob)); setvbuf(stderr, eb, _IOFBF, sizeof(eb));
  long total = 0;
  for (int cf = 0; cf < NCF; cf++) {
    char p[2000]; cdc_params(p, CF[cf]);
    mf_clear(); history(CF[cf], p, 1);
    mf_clear(); mc.nfail = 0; history(CF[cf], p, 0); // counts the allocations
    long A = mf_n; total += A;
    for (long i = 0; i < A; i++) {
      if (!mc_group()) continue;
      for (long j = -4; j < A + 2; j++) { // j < 0: i and the -j - 1 following ones; otherwise i and a second one
        if (j >= 0 && j <= i) continue;
        if (!mc_case()) continue;
        mf_clear(); mf_a = i; mf_b = j < 0 ? i - j - 1 : i; mf_c = j < 0 ? -1 : j;
        mc_note("'%s', allocations failing: %ld to %ld and %ld", CF[cf], mf_a, mf_b, mf_c);
        mc_state(mc_h2(mc_h2(cf, i), j + 10));
        history(CF[cf], p, 0);
        mc.evals++;
        if (mc.evals % 50 == 1) mc_sample("%s", mc.note);
      }
    }
  }
  mc_stat("allocations", mc.shard == 0 ? total : 0);
  return mc_done();
}
