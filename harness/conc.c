// C18: several processes save to one results file. Every file system call is a scheduling point; all interleavings
// are explored, states (files, open files, histories of what each process saw) met before are not entered again.
#include "resmodel.h"
#include "sysx.h"
#include <sys/wait.h>
#include <dirent.h>
#include <linux/futex.h>
enum { MAXP = 4, P_RUN = 0, P_WAIT, P_SCRIPT_DONE, P_DONE };
typedef struct {
  int st, go;                   // futex words: child's state, controller's grants
  uint64_t chain;               // hash of all calls made and their results
  long step; int kind, failed, nosched; char path[40];
  int saves, bad; char badmsg[300];
  int fn; double snr[60]; cnt_t saved[60], now[60];  // the session
  int lastrc, openfd[16], nopen, endsaves, offlist;
} proc_t;
static struct { proc_t p[MAXP]; } *SH;
static int me, NP;
static void fwait(int *w, int val) { while (__atomic_load_n(w, __ATOMIC_SEQ_CST) == val) sx_raw(SYS_futex, (long)w, FUTEX_WAIT, val, 0, 0, 0); }
static void fset(int *w, int val) { __atomic_store_n(w, val, __ATOMIC_SEQ_CST); sx_raw(SYS_futex, (long)w, FUTEX_WAKE, 10, 0, 0, 0); }
static void yield_(int st) { // child: stop until granted a turn
  proc_t *p = &SH->p[me]; int g = __atomic_load_n(&p->go, __ATOMIC_SEQ_CST);
  fset(&p->st, st);
  fwait(&p->go, g);
}
static uint64_t hmap(uint64_t h, const void *b, size_t n) { return mc_hbytes(h, b, n); }
static int visible(int k) { return k != K_CLOSE && k != K_FSTAT && k != K_SEEK && k != K_SYNC; }
static int before(sxc_t *c, long *ret) {
  proc_t *p = &SH->p[me]; sx.step++;
  p->kind = c->kind; snprintf(p->path, 40, "%.39s", c->path ? c->path : "");
  p->chain = mc_h2(p->chain, c->nr); p->chain = mc_h2(p->chain, c->oflags);
  if (c->path) p->chain = hmap(p->chain, c->path, strlen(c->path));
  if (c->path2) p->chain = hmap(p->chain, c->path2, strlen(c->path2));
  if (c->kind == K_WRITE && (c->nr == SYS_write || c->nr == SYS_pwrite64)) p->chain = hmap(p->chain, (void *)c->a[1], c->len);
  if (c->nr == SYS_flock && !(c->a[1] & LOCK_UN)) c->a[1] |= LOCK_NB;
  if (c->nr == SYS_fcntl && c->a[1] == F_SETLKW) c->a[1] = F_SETLK;
  if (visible(c->kind)) {
    for (;;) {
      yield_(P_WAIT);
      if (c->kind != K_LOCK) break;
      long r = sx_raw(c->nr, c->a[0], c->a[1], c->a[2], c->a[3], c->a[4], c->a[5]);
      p->failed = 1;
      if (r != -EAGAIN && r != -EACCES) { *ret = r; return 1; } // a blocking lock is retried at every turn
    }
  }
  (void)ret;
  return 0;
}
static void after(sxc_t *c, long ret) {
  proc_t *p = &SH->p[me]; int i;
  p->step++;
  p->chain = mc_h2(p->chain, (uint64_t)ret);
  if (c->kind == K_READ && ret > 0 && (c->nr == SYS_read || c->nr == SYS_pread64)) p->chain = hmap(p->chain, (void *)c->a[1], ret);
  if (c->nr == SYS_stat || c->nr == SYS_lstat || c->nr == SYS_fstat) { struct stat *s = (struct stat *)c->a[1]; if (ret == 0) p->chain = mc_h2(p->chain, s->st_size); }
  p->failed = ret < 0;
  if (c->kind == K_OPEN && ret >= 0 && p->nopen < 16) p->openfd[p->nopen++] = (int)ret;
  if (c->kind == K_CLOSE) for (i = 0; i < p->nopen; i++) if (p->openfd[i] == c->fd) { p->openfd[i] = p->openfd[--p->nopen]; break; }
}
static void bad(const char *fmt, ...) { proc_t *p = &SH->p[me]; va_list ap; if (p->bad++) return; va_start(ap, fmt); vsnprintf(p->badmsg, 300, fmt, ap); va_end(ap); }
static int has_busy(const char *s) { for (; *s; s++) if (!strncasecmp(s, "busy", 4)) return 1; return 0; }
static int csave(void *h, int sched) { // child: one save
  proc_t *p = &SH->p[me];
  if (ftruncate(so_fd, 0)) exit(3);
  lseek(1, 0, SEEK_SET);
  fflush(stdout);
  if (sched) sx.on = 1;
  int rc = sim_save_res(h); sx.on = 0;
  fflush(stdout);
  if (rc == 0) { memcpy(S.saved, S.now, sizeof(S.now)); p->saves++; }
  else if (!has_busy(so_get())) bad("a save failed without reporting a busy file: %.200s", so_get());
  else if (!sched) bad("a save failed although no other process saves: %.200s", so_get());
  p->fn = S.n; memcpy(p->snr, S.snr, sizeof(p->snr)); memcpy(p->saved, S.saved, sizeof(p->saved)); memcpy(p->now, S.now, sizeof(p->now));
  p->lastrc = rc;
  p->chain = mc_h2(p->chain, 1000 + rc);
  return rc;
}
typedef struct { const char *ini; int np; const char *list[MAXP]; int mask[MAXP]; } scn_t;
static const scn_t *SC; static void *HND[MAXP]; static char SKEEP[MAXP][sizeof(S)], STKEEP[MAXP][sizeof(ST)]; static int MLK[MAXP];
static void child(int i) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  me = i; memcpy(&S, SKEEP[i], sizeof(S)); memcpy(&ST, STKEEP[i], sizeof(ST)); ml = MLK[i]; sess = i + 1;
  char fn[30]; sprintf(fn, "../out%d_%d", (int)getppid(), i);
  so_fd = open(fn, O_RDWR | O_CREAT | O_TRUNC, 0600); if (so_fd < 0 || dup2(so_fd, 1) < 0) _exit(3); unlink(fn);
  int rc = 1, t = 0;
  while (rc == 1 || rc == RC_SIMUL_NOT_COMPLETED) {
    if (SC->mask[i] >> t & 1) csave(HND[i], 1);
    ST.tick = 0; rc = sim_run(HND[i]); ST.tick = 1; t++;
  }
  csave(HND[i], 1);
  yield_(P_SCRIPT_DONE);
  for (int k = 0; k < 20 && memcmp(S.saved, S.now, sizeof(S.now)); k++) csave(HND[i], 0);
  fset(&SH->p[i].st, P_DONE);
  _exit(0);
}
// ----- controller
static pid_t pid[MAXP]; static int nruns;
static void kill_all(void) { int i, st; for (i = 0; i < NP; i++) if (pid[i] > 0) { kill(pid[i], SIGKILL); } for (i = 0; i < NP; i++) if (pid[i] > 0) { waitpid(pid[i], &st, 0); pid[i] = 0; } }
static int settle(int i) { // wait until the child stops; 0: it is stuck or died
  proc_t *p = &SH->p[i]; int n = 0, st; struct timespec ts = { 1, 0 };
  while (__atomic_load_n(&p->st, __ATOMIC_SEQ_CST) == P_RUN) {
    long r = sx_raw(SYS_futex, (long)&p->st, FUTEX_WAIT, P_RUN, (long)&ts, 0, 0);
    if (r == -ETIMEDOUT) { if (waitpid(pid[i], &st, WNOHANG) == pid[i]) { pid[i] = 0; return 0; } if (++n > 20) return 0; mc_tick(); }
  }
  return 1;
}
static void grant(int i) { proc_t *p = &SH->p[i]; __atomic_store_n(&p->st, P_RUN, __ATOMIC_SEQ_CST); __atomic_fetch_add(&p->go, 1, __ATOMIC_SEQ_CST); sx_raw(SYS_futex, (long)&p->go, FUTEX_WAKE, 10, 0, 0, 0); }
static int rawread(const char *fn, char *b, int cap) { long f = SXR(SYS_open, fn, O_RDONLY), n, t = 0; if (f < 0) return -1; while (t < cap && (n = SXR(SYS_read, f, b + t, cap - t)) > 0) t += n; SXR(SYS_close, f); return (int)t; }
static uint64_t last_res; static char *INI_TXT; static char RB[200000];
static uint64_t fs_hash(int *ressame) { // all files in the directory; checks the results file when it changed
  DIR *d = opendir("."); struct dirent *e; uint64_t h = 0; ino_t ino[20]; uint64_t nm[20]; int k = 0, i, j;
  while ((e = readdir(d))) {
    if (e->d_name[0] == '.') continue;
    if (!strcmp(e->d_name, "t.spf") || !strcmp(e->d_name, "stdout.txt")) continue;
    int n = rawread(e->d_name, RB, sizeof(RB) - 1);
    uint64_t x = mc_h2(hmap(hmap(1, e->d_name, strlen(e->d_name)), RB, n < 0 ? 0 : n), n);
    h += mc_mix(x); // order of the directory does not matter
    if (k < 20) { ino[k] = e->d_ino; nm[k++] = hmap(3, e->d_name, strlen(e->d_name)); }
    if (!strcmp(e->d_name, "r.srf") && x != last_res) {
      srf_t s; RB[n < 0 ? 0 : n] = 0; last_res = x;
      if (n > 0 && !(INI_TXT && !strcmp(RB, INI_TXT)) && (!srf_parse(RB, &s) || !srf_rates(&s))) { *ressame = 0; }
    }
  }
  closedir(d);
  for (i = 0; i < NP; i++) for (j = 0; j < SH->p[i].nopen; j++) { // open files: which inode, and its content when it has no name
    char fn[60]; struct stat st; snprintf(fn, sizeof(fn), "/proc/%d/fd/%d", pid[i], SH->p[i].openfd[j]);
    uint64_t x = mc_h2(i, SH->p[i].openfd[j]);
    if (pid[i] > 0 && stat(fn, &st) == 0) {
      int q; for (q = 0; q < k && ino[q] != st.st_ino; q++);
      if (q < k) x = mc_h2(x, nm[q]); else { int n = rawread(fn, RB, sizeof(RB) - 1); x = mc_h2(hmap(x, RB, n < 0 ? 0 : n), st.st_size); }
    }
    h += mc_mix(x);
  }
  return h;
}
typedef struct { unsigned char *ch; int n; } path_t;
static path_t *stk; static int nstk, cstk;
static void push(const unsigned char *ch, int n, int c) {
  if (nstk == cstk) { cstk = cstk ? 2 * cstk : 1024; stk = (path_t *)realloc(stk, cstk * sizeof(path_t)); }
  stk[nstk].ch = (unsigned char *)malloc(n + 1); memcpy(stk[nstk].ch, ch, n); stk[nstk].ch[n] = (unsigned char)c; stk[nstk++].n = n + 1;
}
enum { MAXSTEPS = 6000 };
static char tr[4000];
static void trace(const unsigned char *ch, int n) { int i, l = 0, r; for (i = 0; i < n && l < 1500; i += r) { for (r = 1; i + r < n && ch[i + r] == ch[i]; r++); l += snprintf(tr + l, sizeof(tr) - l, "%c%d ", 'A' + ch[i] % 16, r); } }
static void explore(const scn_t *sc, int stutter, int bound) {
  static unsigned char ch[MAXSTEPS + 10]; int i, n;
  SC = sc; NP = sc->np; nruns = 0;
  (void)!system("rm -rf ./*");
  init_file(sc->ini); model_t M0 = M; char *ini = rd_file("r.srf"); INI_TXT = ini;
  for (i = 0; i < NP; i++) {
    ST.params = NULL; // kept for the child
    HND[i] = open_session(sc->list[i], i & 1); if (!HND[i]) return;
    memcpy(SKEEP[i], &S, sizeof(S)); memcpy(STKEEP[i], &ST, sizeof(ST)); MLK[i] = ml;
  }
  uint64_t base = mc_hstr(mc_hstr(mc_h2(NP, stutter), sc->ini), sc->list[0]); for (i = 0; i < NP; i++) base = mc_h2(mc_hstr(base, sc->list[i]), sc->mask[i]);
  nstk = 0; push(NULL, 0, 0); stk[0].n = 0; // the empty prefix
  int nf0 = mc.nfail;
  while (nstk > 0 && mc.nfail == nf0) {
    path_t pf = stk[--nstk]; int len = 0, prev = -1, switches = 0, ended = 0; uint64_t fslast = 0; uint64_t seen_fs[MAXP] = { 0 };
    memset(SH, 0, sizeof(*SH)); last_res = 0;
    { DIR *d = opendir("."); struct dirent *e; while ((e = readdir(d))) if (e->d_name[0] != '.' && strcmp(e->d_name, "t.spf") && strcmp(e->d_name, "stdout.txt")) unlink(e->d_name); closedir(d); }
    if (ini) { FILE *f = fopen("r.srf", "wb"); fputs(ini, f); fclose(f); }
    fflush(stdout); if (mc.fout) fflush(mc.fout);
    for (i = 0; i < NP; i++) { pid[i] = fork(); if (pid[i] < 0) { perror("fork"); exit(3); } if (pid[i] == 0) child(i); }
    nruns++; mc.evals++;
    int okr = 1;
    for (i = 0; i < NP; i++) if (!settle(i)) { mc_fail("hang", "process %c does not go on at the beginning", 'A' + i); okr = 0; }
    int forced = -1; // stuttering process that is run to the end of its save
    while (okr) {
      if (len >= MAXSTEPS) { trace(ch, len); mc_fail("no-end", "saving does not end; schedule %s", tr); break; }
      int en[MAXP], ne = 0, alive = 0, valid = 1;
      uint64_t f = len < pf.n && !stutter ? 0 : fs_hash(&valid);
      if (prev >= 0) seen_fs[prev] = f;
      if (!valid) { trace(ch, len); mc_fail("partial", "the results file is incomplete for readers (%s); schedule %s", srf_err, tr); break; }
      for (i = 0; i < NP; i++) if (SH->p[i].st == P_WAIT) alive++;
      if (!alive) { ended = 1; break; }
      for (i = 0; i < NP; i++) if (SH->p[i].st == P_WAIT) {
        // a process whose exclusive claim failed sees nothing new until the files change: it waits, or is run until it gives up
        int st = stutter && SH->p[i].failed && seen_fs[i] == f && (SH->p[i].kind == K_OPEN || SH->p[i].kind == K_LINK || SH->p[i].kind == K_DIR);
        en[ne++] = st ? i + 16 : i;
      }
      int c;
      if (len < pf.n) c = pf.ch[len];
      else if (forced >= 0 && SH->p[forced].st == P_WAIT && SH->p[forced].failed && f == fslast) c = forced;
      else {
        forced = -1;
        uint64_t h = mc_h2(base, f); for (i = 0; i < NP; i++) { h = mc_h2(h, SH->p[i].chain); h = mc_h2(h, SH->p[i].st); if (stutter) h = mc_h2(h, SH->p[i].failed && seen_fs[i] == f); }
        if (bound) h = mc_h2(mc_h2(h, switches), prev);
        if (!mc_state(h)) break;
        int k, first = -1;
        for (k = 0; k < ne; k++) if (en[k] % 16 == prev) first = k; // go on with the same process
        if (first < 0) first = 0;
        c = en[first];
        for (k = 0; k < ne; k++) if (k != first && (!bound || prev < 0 || SH->p[prev].st != P_WAIT || switches < bound)) push(ch, len, en[k]);
      }
      if (c >= 16) { forced = c - 16; }
      ch[len++] = (unsigned char)c; c %= 16;
      if (prev >= 0 && prev != c && SH->p[prev].st == P_WAIT) switches++;
      prev = c; fslast = f;
      grant(c); mc.trans++; mc_tick();
      if (!settle(c)) { trace(ch, len); mc_fail("hang", "process %c does not go on; schedule %s", 'A' + c, tr); break; }
    }
    if (ended) {
      int tot_bad = 0;
      for (i = 0; i < NP && !tot_bad; i++) { // whoever could not save does it now
        if (SH->p[i].bad) { trace(ch, len); mc_fail("save-error", "process %c: %s; schedule %s", 'A' + i, SH->p[i].badmsg, tr); tot_bad = 1; break; }
      }
      for (i = 0; i < NP && !tot_bad; i++) {
        grant(i);
        if (!settle(i)) { trace(ch, len); mc_fail("hang", "process %c does not end; schedule %s", 'A' + i, tr); tot_bad = 1; }
        else if (SH->p[i].bad) { trace(ch, len); mc_fail("later-save", "process %c: %s; schedule %s", 'A' + i, SH->p[i].badmsg, tr); tot_bad = 1; }
      }
      if (!tot_bad) { // the file holds the sum of all trials
        M = M0;
        for (i = 0; i < NP; i++) { S.n = SH->p[i].fn; memcpy(S.snr, SH->p[i].snr, sizeof(S.snr)); memcpy(S.now, SH->p[i].now, sizeof(S.now)); memset(S.saved, 0, sizeof(S.saved)); model_save(); M = next; }
        int nf = mc.nfail; trace(ch, len); char w[1700]; snprintf(w, sizeof(w), "after schedule %.1600s", tr);
        check_file(w);
        if (mc.nfail == nf && file_exists("r.srf.bsy")) mc_fail("flag", "the busy flag stays behind; schedule %s", tr);
      }
    }
    kill_all();
    free(pf.ch);
  }
  while (nstk > 0) free(stk[--nstk].ch);
  mc_sample("%s: %d executions", mc.note, nruns);
  for (i = 0; i < NP; i++) { memcpy(&S, SKEEP[i], sizeof(S)); memcpy(&ST, STKEEP[i], sizeof(ST)); sim_close(HND[i]); free(ST.params); ST.params = NULL; }
  free(ini);
}
int main(int argc, char **argv) {
  mc_init(argc, argv);
  so_init();
  SH = mmap(NULL, sizeof(*SH), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sx_install(); sx_before = before; sx_after = after;
  if (mkdir("d", 0700) || chdir("d")) exit(3);
  static const char *INI[] = { "none", "rows3", "empty" };
  static const char *PL[][2] = { { "1 2", "1 2" }, { "1", "2" }, { "2 1", "1.5" }, { "1.5", "0.5" } };
  static const int MK[][2] = { { 0, 0 }, { 2, 0 }, { 2, 2 }, { 4, 2 } };
  int a, b, m;
  // two processes: all interleavings
  for (a = 0; a < 3; a++) for (b = 0; b < 4; b++) for (m = 0; m < 4; m++) if (mc_group() && mc_case()) {
    scn_t s = { INI[a], 2, { PL[b][0], PL[b][1] }, { MK[m][0], MK[m][1] } };
    int full = mc.thorough || m == 0 || (m == 1 && a == 0 && b == 1);
    mc_note("file %s; processes {%s}/%d and {%s}/%d, %s", s.ini, s.list[0], s.mask[0], s.list[1], s.mask[1], full ? "all interleavings" : "interleavings up to waiting");
    explore(&s, !full, 0);
  }
  // three processes
  static const char *PL3[][4] = { { "1", "1", "1", "1" }, { "1", "2", "1.5", "0" }, { "1 2", "1", "2", "3" } };
  static const int MK3[][4] = { { 0, 0, 0, 0 }, { 2, 0, 0, 0 }, { 2, 2, 0, 0 } };
  for (a = 0; a < 3; a++) for (b = 0; b < 3; b++) for (m = 0; m < 3; m++) for (int np = 3; np < (mc.thorough && m == 0 ? 5 : 4); np++) if (mc_group() && mc_case()) {
    scn_t s = { INI[a], np, { PL3[b][0], PL3[b][1], PL3[b][2], PL3[b][3] }, { MK3[m][0], MK3[m][1], MK3[m][2], MK3[m][3] } };
    int bound = mc.thorough ? (np == 4 ? 3 : 0) : m ? 2 : 0;
    mc_note("file %s; %d processes {%s}/%d, {%s}/%d, {%s}/%d, interleavings up to waiting, preemption bound %d", s.ini, np, s.list[0], s.mask[0], s.list[1], s.mask[1], s.list[2], s.mask[2], bound);
    explore(&s, 1, bound);
  }
  return mc_done();
}
