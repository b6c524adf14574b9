// C26: allocations fail at every point (and pair of points) of two simulation sessions with the real simulator and codec.
#include "mc.h"
#include <time.h>
#include <sys/stat.h>
typedef struct { char *spf_name; int ret_int; int dont_randomize; } sim_init_params_;
#include "interfaces/simul.h"
size_t __sanitizer_get_current_allocated_bytes(void);
const char *__asan_default_options(void) { return "max_malloc_fill_size=4096:malloc_fill_byte=190:detect_leaks=0:quarantine_size_mb=4:allocator_release_to_os_interval_ms=-1"; }
#include "memfault.h"
static uint64_t rs; static long now_ = 1000000;
int __wrap_rand(void) { rs++; return (int)(mc_mix(rs) >> 33); }
void __wrap_srand(unsigned s) { (void)s; }
time_t __wrap_time(time_t *t) { if (t) *t = now_; return now_; }
clock_t __wrap_clock(void) { static long c; c += CLOCKS_PER_SEC / 10; return c; }

static const char *CODE[] = {
#if defined(CODEC_DTRM0) || defined(CODEC_DTRM1)
  "RM_m 4 RM_r 2", "RM_m 4 RM_r 1",
#elif defined(CODEC_GLP)
  "RM_m 4 RM_r 2 border_node_mask 110111 border_node_lsize 4", "RM_m 4 RM_r 2 border_node_mask 111111 border_node_lsize 3 permutations { 0 1 2 3 1 2 3 0 }",
#else
  "c_m 4 info_bits_mask 0001011101111111 ca_polar_crc 101 list_size 4", "c_m 4 info_bits_mask 0000000100010111 list_size 2",
#endif
};
static const char *SIM[] = { "SNR_val_trn { -2 3 1.5 3 }\nmin_errors_per_snr 1\nrandom_codeword on\nml_lb on\n", "EbNo_values { 0 2 }\nmin_trials_per_snr 4\nml_lb_hard on\n", "SNR_val_trn { 0 5 }\nrandom_codeword on\n" };
#define NSIM 3
enum { O_INIT, O_RUN, O_SAVE, O_CLOSE };
// reference: what can be observed after each successful operation
static struct { int op, rc; char st[300], res[2000]; char *file; } REF[400]; static int nref;
static char *rdf(const char *fn) {
  FILE *f = fopen(fn, "rb"); if (!f) return NULL;
  char *b = (char *)__real_malloc(20000); size_t n = fread(b, 1, 19999, f); b[n] = 0; fclose(f); return b;
}
static int eqf(const char *a, const char *b) { return (!a && !b) || (a && b && !strcmp(a, b)); }
static const char *ON[] = { "initialisation", "simulation", "saving", "closing" };
static void look(void *h, char *st, char *res, int running) { st[0] = 0; if (running) sim_state_str(h, st); sim_cur_res_str(h, res); }
static void history(int reference, int loop) {
  void *h = NULL; int i = 0, sess, trial = 0; size_t m0 = __sanitizer_get_current_allocated_bytes();
  long tries = 0;
  if (reference) nref = 0;
  remove("r.srf"); remove("r.srf.bsy");
  for (sess = 0; sess < 2; sess++) {
    int op = O_INIT, step = 0, running = 1; trial = 0;
    char *file = rdf("r.srf");
    for (;;) {
      static char st[300], res[2000]; static char pst[300], pres[2000];
      size_t m1 = __sanitizer_get_current_allocated_bytes(); int rc = 0, f;
      if (op == O_INIT) { pst[0] = pres[0] = 0; }
      else look(h, pst, pres, running);
      if (op == O_INIT) { sim_init_params_ sp = { (char *)"t.spf", -1, 1 }; void *g = NULL; mf_failed = 0; mf_on = 1; rc = sim_init((sim_init_params *)&sp, &g); mf_on = 0; h = rc ? NULL : g; }
      else if (op == O_RUN) { rs = mc_mix(sess * 1000 + trial + 5); mf_failed = 0; mf_on = 1; rc = sim_run(h); mf_on = 0; }
      else if (op == O_SAVE) { mf_failed = 0; mf_on = 1; rc = sim_save_res(h); mf_on = 0; }
      else { mf_on = 1; sim_close(h); mf_on = 0; }
      f = mf_failed; mc.trans++; mc_tick();
      int bad = op == O_RUN ? rc < 0 : rc != 0;
      char *nf = rdf("r.srf");
      if (op != O_CLOSE && !(op == O_RUN && !bad && rc == 0)) { if (h) look(h, st, res, running); else st[0] = res[0] = 0; }
      else if (op != O_CLOSE) look(h, st, res, 0);
      else st[0] = res[0] = 0;
      if (reference && bad) { mc_fail("reference", "%s fails without any fault (%d)", ON[op], rc); goto out; }
      if (!reference) {
        size_t m2 = __sanitizer_get_current_allocated_bytes();
        if (nf) m2 -= 20000; // the copy made here
        if (bad && !f) { mc_fail("after", "%s fails with memory at hand (%d), %s", ON[op], rc, mf_desc()); goto out; }
        if ((bad || op == O_RUN || op == O_SAVE) && m1 != m2) { mc_fail("leak", "%s (%s) left %ld bytes allocated, %s", ON[op], bad ? "failed" : "done", (long)(m2 - m1), mf_desc()); goto out; }
        if (bad) {
          if (h && ((op != O_RUN && strcmp(st, pst)) || strcmp(res, pres))) // a run may have gone on to the next point
            { mc_fail("counted", "failed %s changed the state from '%s' to '%s', %s", ON[op], pst, st, mf_desc()); goto out; }
          if (!eqf(file, nf)) { mc_fail("file-changed", "failed %s changed the results file, %s", ON[op], mf_desc()); goto out; }
          if (access("r.srf.bsy", F_OK) == 0) { mc_fail("busy-left", "failed %s left the busy flag, %s", ON[op], mf_desc()); goto out; }
          if (++tries > 1000) { mc_fail("retry", "%s never succeeds", ON[op]); goto out; }
        }
        else {
          if (i >= nref || REF[i].op != op || REF[i].rc != rc || strcmp(REF[i].st, st) || strcmp(REF[i].res, res)) {
            mc_fail("unreported", "%s returns %d, state '%s' instead of '%s'%s, %s", ON[op], rc, st, i < nref ? REF[i].st : "end", f ? " although an allocation failed" : " after failed allocations", mf_desc()); goto out; }
          if (!eqf(REF[i].file, nf)) { mc_fail("file", "%s: another results file than without failed allocations, %s", ON[op], mf_desc()); goto out; }
          i++;
        }
      }
      else {
        REF[nref].op = op; REF[nref].rc = rc; strcpy(REF[nref].st, st); strcpy(REF[nref].res, res); free(REF[nref].file); REF[nref].file = nf ? __real_strdup(nf) : NULL; nref++;
        if (nref >= 399) { mc_fail("reference", "no end"); return; }
      }
      free(file); file = nf;
      if (bad) continue;
      if (op == O_CLOSE) { h = NULL; break; }
      if (op == O_RUN) { if (rc == 0) running = 0; else trial++; }
      // the next operation: save after the third trial and at the end
      step++;
      if (op == O_RUN && (trial == 3 || !running)) op = O_SAVE;
      else if (op == O_SAVE && !running) op = O_CLOSE;
      else op = O_RUN;
    }
    free(file); file = NULL;
    continue;
out:
    free(file); return;
  }
  if (!reference && loop && __sanitizer_get_current_allocated_bytes() != m0) mc_fail("close-leak", "%ld bytes are left after two sessions, %s", (long)(__sanitizer_get_current_allocated_bytes() - m0), mf_desc());
  (void)m0;
}
int main(int argc, char **argv) {
  mc_init(argc, argv);
  if (!freopen("/dev/null", "w", stdout)) exit(3);
  static char ob[5000], eb[5000]; setvbuf(stdout, ob, _IOFBF, sizeof(ob)); setvbuf(stderr, eb, _IOFBF, sizeof(eb));
  long total = 0;
  for (int c = 0; c < 2; c++) for (int s = 0; s < NSIM; s++) {
    FILE *f = fopen("t.spf", "w"); fprintf(f, "res_file r.srf\n%s%s\n", SIM[s], CODE[c]); fclose(f);
    mf_clear(); history(1, 0);
    if (mc.nfail) { mc.c = 0; break; }
    mf_clear(); history(0, 0);
    long A = mf_n; total += A;
    for (long i = 0; i < A; i++) {
      if (!mc_group()) continue;
      for (long j = -5; j < A + 2; j++) {
        if (j >= 0 && (j <= i || (!mc.thorough && j > i + 14 && (j * 7 + i) % 29))) continue;
        if (!mc_case()) continue;
        mf_clear(); mf_a = i; mf_b = j < 0 ? i - j - 1 : i; mf_c = j < 0 ? -1 : j;
        mc_note("code '%s', simulation %d, allocations failing: %ld to %ld and %ld", CODE[c], s, mf_a, mf_b, mf_c);
        mc_state(mc_h2(mc_h2(c * 10 + s, i), j + 10));
        history(0, 1);
        mc.evals++;
        if (mc.evals % 50 == 1) mc_sample("%s", mc.note);
      }
    }
  }
  mc_stat("allocations", mc.shard == 0 ? total : 0);
  return mc_done();
}
