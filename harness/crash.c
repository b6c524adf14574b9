// C19: the process is killed before and after every file system call of a save and after every byte written.
#include "resmodel.h"
#include "sysx.h"
#include <sys/wait.h>
typedef struct { int kind, nr; size_t len; char path[40]; } rec_t;
static struct { long nrec; rec_t r[4000]; int rc; volatile int64_t trans; } *SH;
static long kill_at = -1; static size_t part; // killed before call kill_at, or after part bytes of it
static int before(sxc_t *c, long *ret) {
  long i = sx.step++;
  if (i < 4000) { SH->r[i].kind = c->kind; SH->r[i].nr = (int)c->nr; SH->r[i].len = c->len; snprintf(SH->r[i].path, 40, "%.39s", c->path ? c->path : ""); SH->nrec = i + 1; }
  SH->trans++;
  if (i == kill_at) {
    if (part) sx_raw(c->nr, c->a[0], c->a[1], part, 0, 0, 0);
    sx_raw(SYS_kill, sx_raw(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGKILL, 0, 0, 0, 0);
  }
  return 0;
}
static int crash_save(void *h, long at, size_t p) { // 1: killed
  int st; pid_t pid;
  SH->nrec = 0; SH->rc = 99;
  fflush(stdout);
  pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    kill_at = at; part = p; sx.step = 0; ST.tick = 1;
    sx.on = 1; int rc = sim_save_res(h); sx.on = 0;
    SH->rc = rc; _exit(0);
  }
  if (waitpid(pid, &st, 0) != pid) exit(3);
  mc_tick(); mc.trans = SH->trans;
  return WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
}
static char *rdn(const char *fn, size_t *n) { FILE *f = fopen(fn, "rb"); *n = 0; if (!f) return NULL; char *b = (char *)malloc(300000); *n = fread(b, 1, 299999, f); b[*n] = 0; fclose(f); return b; }
static void wrn(const char *fn, const char *b, size_t n) { if (!b) { unlink(fn); return; } FILE *f = fopen(fn, "wb"); if (!f || fwrite(b, 1, n, f) != n) exit(3); fclose(f); }
static void clear_dir(void) { (void)!system("rm -rf ./*"); }
static const char *INI[] = { "none", "empty", "rows1", "rows3", "rows46", "rows3 big", "rows2 crlf" };
static const char *LISTS[] = { "1 2", "1.5", "3 1", "0.1 0.2 0.3" };
typedef struct { char *b; size_t n; } buf_t;
static int same(const char *b, size_t n, const char *b2, size_t n2) { return (b == NULL) == (b2 == NULL) && (!b || (n == n2 && !memcmp(b, b2, n))); }
// A later session: refused while the flag is there, complete afterwards. Ends with the model advanced.
static void later(const char *list, const char *what, int again) {
  char *b0, *b1, *f0, *f1; size_t n0, n1, m0, m1;
  void *h = open_session(list, 1); if (!h) return;
  ST.tick = 1;
  while (sim_run(h) == RC_SIMUL_NOT_COMPLETED);
  if (again && file_exists("r.srf.bsy")) {
    b0 = rdn("r.srf", &n0); f0 = rdn("r.srf.bsy", &m0); so_reset();
    int rc = sim_save_res(h);
    b1 = rdn("r.srf", &n1); f1 = rdn("r.srf.bsy", &m1);
    if (rc == 0) { // the left-over flag was recognised as such
      model_save(); M = next; memcpy(S.saved, S.now, sizeof(S.now)); check_file("after saving over a left-over flag");
    } else if (!same(b0, n0, b1, n1) || !same(f0, m0, f1, m1)) mc_fail("flag-ignored", "%s: a save that is refused because of the busy flag changed the files", what);
    free(b0); free(b1); free(f0); free(f1);
  }
  unlink("r.srf.bsy");
  so_reset(); model_save();
  int rc = sim_save_res(h);
  if (rc) mc_fail("not-extended", "%s: a later session cannot save: %s", what, so_get());
  else { M = next; memcpy(S.saved, S.now, sizeof(S.now)); check_file("after a later session"); }
  if (file_exists("r.srf.bsy")) mc_fail("flag", "%s: the busy flag stays behind a later session", what);
  sim_close(h);
}
// Run a session up to save number fs. The state before that save is in M and S.
static void *upto(const char *list, int mlb, int mask, int fs) {
  void *h = open_session(list, mlb); int rc = 1, t = 0, ns = 0;
  if (!h) return NULL;
  sess = 1; ST.tick = 0;
  while (rc) {
    if (mask >> t & 1) { if (ns == fs) return h; ns++; model_save(); if (sim_save_res(h)) mc_fail("save-failed", "a save without a crash failed"); M = next; memcpy(S.saved, S.now, sizeof(S.now)); }
    rc = sim_run(h); t++;
    if (rc != RC_SIMUL_NOT_COMPLETED || t > 50) break;
  }
  return h;
}
static void check_after(const char *old, size_t on, const char *new_, size_t nn, const model_t *m0, const model_t *m1, const char *what) {
  size_t n; char *b = rdn("r.srf", &n);
  if (same(b, n, old, on)) M = *m0;
  else if (same(b, n, new_, nn)) M = *m1;
  else { mc_fail("destroyed", "%s: the results file is neither the old nor the new one: %.300s", what, b ? b : "(no file)"); M = *m0; wrn("r.srf", old, on); }
  free(b);
}
int main(int argc, char **argv) {
  mc_init(argc, argv);
  so_init();
  SH = mmap(NULL, sizeof(*SH), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sx_install(); sx_before = before;
  static const int MASK[] = { 0, 2, 6, 4 };
  int a, b, m, fs; static rec_t R[4000];
  for (a = 0; a < 7; a++) for (b = 0; b < 4; b++) for (m = 0; m < 4; m++) for (fs = 0; fs < 3; fs++) {
    if (fs > __builtin_popcount(MASK[m])) continue;
    if (!mc_group()) continue;
    clear_dir(); init_file(INI[a]);
    void *h = upto(LISTS[b], b & 1, MASK[m], fs); if (!h) continue;
    char *old, *new_; size_t on, nn; model_t m0 = M, m1; char w[400];
    old = rdn("r.srf", &on);
    model_save(); m1 = next;
    snprintf(w, sizeof(w), "%s, session {%s}, save points %d, save %d", INI[a], LISTS[b], MASK[m], fs);
    mc_case(); mc_note("%s: no crash", w);
    if (crash_save(h, -1, 0) || SH->rc) { mc_fail("save-failed", "%s failed without a crash", w); continue; }
    new_ = rdn("r.srf", &nn);
    M = m1; if (M.n) check_file("without a crash");
    long n = SH->nrec, i; memcpy(R, SH->r, sizeof(R));
    if (n < 1) mc_fail("no-calls", "no system calls were seen during a save");
    mc_sample("%s: %ld calls, %zu bytes before, %zu after", w, n, on, nn);
    for (i = 0; i < n; i++) {
      size_t p, pe = R[i].kind == K_WRITE && (R[i].nr == SYS_write || R[i].nr == SYS_pwrite64) ? R[i].len : 0;
      for (p = 0; p <= pe; p++) {
        if (!mc_case()) continue;
        mc_note("%s: killed %s call %ld (%s %s)", w, p ? "inside" : "before", i, K_NAME[R[i].kind], R[i].path);
        if (p) snprintf(mc.note + strlen(mc.note), 60, ", %zu of %zu bytes written", p, pe);
        char note[600]; snprintf(note, sizeof(note), "%.599s", mc.note);
        clear_dir(); wrn("r.srf", old, on);
        if (!crash_save(h, i, p)) mc_fail("no-crash", "%s: the save did not get that far", note);
        check_after(old, on, new_, nn, &m0, &m1, note);
        // session state is replaced by the later one's and restored
        __typeof__(S) S0 = S; __typeof__(ST) ST0 = ST; ST.params = NULL; int ml0 = ml;
        sess = 2;
        later(p % 2 ? "2 1" : "1.5 7", note, p < 2);
        // a crash in the later session's save as well
        if (p == 0 && mc.nfail < 20) {
          size_t o2, n2; void *h2; model_t q0, q1; long j, nj = 1; char *c0 = NULL, *c1 = NULL;
          for (j = -1; j < nj; j++) {
            if (j < 0) { // start again from the state after the first crash
              clear_dir(); wrn("r.srf", old, on);;
              ST = ST0; S = S0; ml = ml0; crash_save(h, i, 0); unlink("r.srf.bsy"); check_after(old, on, new_, nn, &m0, &m1, note);
              ST.params = NULL;
              h2 = open_session("2 1", 1); if (!h2) break; sess = 3; while (sim_run(h2) == RC_SIMUL_NOT_COMPLETED);
              c0 = rdn("r.srf", &o2); q0 = M; model_save(); q1 = next;
              if (crash_save(h2, -1, 0) || SH->rc) { mc_fail("save-failed", "%s: the next session's save failed", note); break; }
              c1 = rdn("r.srf", &n2); nj = SH->nrec; continue;
            }
            char n2t[700]; snprintf(n2t, sizeof(n2t), "%s; the next session before its call %ld", note, j);
            wrn("r.srf", c0, o2); unlink("r.srf.bsy");
            crash_save(h2, j, 0); check_after(c0, o2, c1, n2, &q0, &q1, n2t);
            __typeof__(S) S2 = S; __typeof__(ST) ST2 = ST; ST.params = NULL;
            sess = 4; later("1 2", n2t, 0);
            free(ST.params); S = S2; ST = ST2; ml = 1;
            mc_state(mc_h2(mc_h2(mc_h2(a * 100 + b * 10 + m, fs), i), 100000 + j)); mc.evals++;
          }
          free(c0); free(c1);
          if (h2) sim_close(h2);
        }
        free(ST.params); ST = ST0; S = S0; ml = ml0;
        mc_state(mc_h2(mc_h2(mc_h2(a * 100 + b * 10 + m, fs), i), p)); mc.evals++;
        if (mc.nfail >= 20) break;
      }
      if (mc.nfail >= 20) break;
    }
    sim_close(h); free(old); free(new_);
  }
  return mc_done();
}
