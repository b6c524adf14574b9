// C17: every system call of every save fails in every way that call can fail; single faults, lasting faults, pairs.
#include "resmodel.h"
#include "sysx.h"
enum { F_ERR, F_SHORT1, F_SHORTH, F_PART, F_LAST, F_LASTK, F_CUT }; // one error; short transfers; partial write, then errors; lasting errors of all calls / calls of this kind
typedef struct { long step; int how, err; size_t cut; } flt_t; // F_CUT: a read ends after so many bytes, the next ones fail (err != 0) or not
static flt_t FL[2]; static int nfl, hit[2], lasting, lastkind, lasterr, unl_fault;
typedef struct { int kind, oflags; size_t len; char path[40]; } rec_t;
static rec_t REC[4000]; static long nrec;
static int before(sxc_t *c, long *ret) {
  long i = sx.step++; int q;
  if (i < 4000) { REC[i].kind = c->kind; REC[i].oflags = c->oflags; REC[i].len = c->len; snprintf(REC[i].path, 40, "%.39s", c->path ? c->path : ""); nrec = i + 1; }
  mc.trans++;
  int err = 0;
  if (lasting && (lastkind < 0 || lastkind == c->kind) && !(c->kind == K_SEEK || c->kind == K_FSTAT)) err = lasterr;
  for (q = 0; q < nfl; q++) if (FL[q].step == i) {
    hit[q] = 1;
    size_t half = FL[q].how == F_SHORT1 ? 1 : c->len / 2;
    if (FL[q].how == F_ERR) err = FL[q].err;
    else if (FL[q].how == F_LAST) { lasting = 1; lastkind = -1; err = lasterr = FL[q].err; }
    else if (FL[q].how == F_LASTK) { lasting = 1; lastkind = c->kind; err = lasterr = FL[q].err; }
    else if (FL[q].how == F_CUT) {
      if (c->kind != K_READ || c->nr != SYS_read || c->len <= FL[q].cut) continue;
      if (FL[q].err) { lasting = 1; lastkind = K_READ; lasterr = FL[q].err; }
      *ret = sx_raw(c->nr, c->a[0], c->a[1], FL[q].cut, 0, 0, 0);
      return 1;
    }
    else if ((c->kind == K_READ || c->kind == K_WRITE) && (c->nr == SYS_read || c->nr == SYS_write) && c->len > 1 && half > 0) {
      if (FL[q].how == F_PART) { lasting = 1; lastkind = K_WRITE; lasterr = FL[q].err; }
      *ret = sx_raw(c->nr, c->a[0], c->a[1], half, 0, 0, 0);
      return 1;
    }
  }
  if (!err) return 0;
  if (c->kind == K_UNLINK) unl_fault = 1;
  if (c->kind == K_CLOSE) sx_raw(c->nr, c->a[0], 0, 0, 0, 0, 0);
  *ret = -err;
  return 1;
}
static int same_model(const char *t, const model_t *m) { // is this text a complete results file with these counters?
  srf_t s; int i, r;
  if (!srf_parse(t, &s) || !srf_rates(&s) || s.rows != m->n) return 0;
  for (i = 0; i < m->n; i++) { if (s.snr[i] != m->snr[i]) return 0; for (r = 0; r < 6; r++) if (s.v[r][i] != m->p[i].c[r]) return 0; }
  return 1;
}
// A save with the faults in FL. With a failing result the old (or, for an error reported after the fact, the new) results have to be there.
static void fsave(void *h, const char *when) {
  char *bf = rd_file("r.srf");
  so_reset(); model_save();
  sx.step = 0; nrec = 0; hit[0] = hit[1] = 0; lasting = 0; unl_fault = 0;
  sx.on = 1; int rc = sim_save_res(h); sx.on = 0;
  nfl = hit[0] + hit[1] ? nfl : 0;
  char *af = rd_file("r.srf");
  if (rc == 0) {
    if (!next_ok) mc_fail("not-refused", "saving succeeded although the file is full");
    M = next; memcpy(S.saved, S.now, sizeof(S.now));
    if (M.n || af) { if (!af || !same_model(af, &M)) mc_fail("incomplete", "saving %s succeeded, but the file does not hold the results (%s): %.300s", when, srf_err, af ? af : "(no file)"); }
  } else {
    if (!nfl) mc_fail("save-failed", "saving %s failed without a fault: %s", when, so_get());
    if (bf && !af) mc_fail("lost", "saving %s failed and the results file is gone", when);
    else if (af && (!bf || strcmp(bf, af))) {
      if (same_model(af, &next)) { M = next; memcpy(S.saved, S.now, sizeof(S.now)); }
      else if (!(M.n && same_model(af, &M)) && !(M.n == 0 && af[0] == 0)) mc_fail("lost", "saving %s failed and the file holds neither the old nor the new results: %.300s", when, af);
    }
  }
  if (file_exists("r.srf.bsy")) {
    if (!unl_fault) mc_fail("flag", "the busy flag stays behind %s (result %d)", when, rc);
    unlink("r.srf.bsy");
  }
  free(bf); free(af); nfl = 0;
}
static const char *INI[] = { "none", "empty", "rows1", "rows3", "rows46", "rows3 big", "rows3 pad" };
static const char *LISTS[] = { "1 2", "1.5", "3 1", "0.1 0.2 0.3" };
// A session with saves at the points of the mask; faults in save number fs; another session afterwards.
static long scenario(const char *ini, const char *list, int mlb, int mask, int fs, const flt_t *f, int nf) {
  init_file(ini);
  void *h = open_session(list, mlb); int rc = 1, t = 0, ns = 0; long steps = 0; char w[60];
  if (!h) return 0;
  ST.tick = 1;
  sess = 1;
  for (;;) {
    if (mask >> t & 1) {
      nfl = 0; if (ns == fs) { memcpy(FL, f, nf * sizeof(*f)); nfl = nf; }
      sprintf(w, "after trial %d", t);
      fsave(h, w); if (ns == fs) steps = nrec;
      ns++;
    }
    ST.tick = 0; rc = sim_run(h); t++; ST.tick = 1;
    if (rc != RC_SIMUL_NOT_COMPLETED || t > 50) break;
  }
  nfl = 0; if (ns == fs) { memcpy(FL, f, nf * sizeof(*f)); nfl = nf; }
  fsave(h, "at the end"); if (ns == fs) steps = nrec;
  static rec_t keep[4000]; memcpy(keep, REC, steps * sizeof(rec_t));
  fsave(h, "again at the end"); // everything is saved now, once
  sim_close(h);
  h = open_session("2 1", 1); sess = 2;
  if (h) { while (sim_run(h) == RC_SIMUL_NOT_COMPLETED); ST.tick = 1; fsave(h, "in the next session"); check_file("after the next session"); sim_close(h); }
  memcpy(REC, keep, steps * sizeof(rec_t));
  mc.evals++;
  return steps;
}
typedef struct { int how, err; } fk_t;
static int kinds(const rec_t *r, fk_t *k) {
  int n = 0;
#define A(h, e) k[n].how = h, k[n++].err = e
  switch (r->kind) {
    case K_OPEN: A(F_ERR, EACCES); A(F_ERR, EMFILE); if (r->oflags & O_CREAT) A(F_ERR, ENOSPC); A(F_LASTK, EMFILE); A(F_LAST, EIO); break;
    case K_READ: A(F_ERR, EIO); A(F_SHORT1, 0); A(F_SHORTH, 0); A(F_LAST, EIO); break;
    case K_WRITE: A(F_ERR, ENOSPC); A(F_ERR, EIO); A(F_SHORT1, 0); A(F_SHORTH, 0); A(F_PART, ENOSPC); A(F_LASTK, ENOSPC); A(F_LAST, EIO); break;
    case K_CLOSE: A(F_ERR, EIO); A(F_ERR, ENOSPC); A(F_LAST, EIO); break;
    case K_RENAME: case K_LINK: A(F_ERR, EACCES); A(F_ERR, ENOSPC); A(F_LAST, EIO); break;
    case K_UNLINK: A(F_ERR, EACCES); break;
    case K_STAT: A(F_ERR, EACCES); A(F_LAST, EIO); break;
    default: A(F_ERR, EIO);
  }
#undef A
  return n;
}
int main(int argc, char **argv) {
  mc_init(argc, argv);
  so_init();
  sx_install(); sx_before = before;
  int a, b, m, fs; static rec_t R[4000], R2[4000]; fk_t k1[12], k2[12];
  static const int MASK[] = { 0, 2, 6, 4 };
  for (a = 0; a < 7; a++) for (b = 0; b < 4; b++) for (m = 0; m < 4; m++) for (fs = 0; fs < 3; fs++) {
    if (fs > __builtin_popcount(MASK[m])) continue;
    if (!mc_group()) continue;
    if (mc_case()) mc_note("%s, session {%s}, save points %d, no fault", INI[a], LISTS[b], MASK[m]);
    long n = scenario(INI[a], LISTS[b], b & 1, MASK[m], fs, NULL, 0), i, j; int x, y;
    if (n < 1) { mc_fail("no-calls", "no system calls were seen during a save"); continue; }
    memcpy(R, REC, sizeof(R));
    for (i = 0; i < n; i++) {
      int nk = kinds(&R[i], k1);
      for (x = 0; x < nk; x++) {
        flt_t f[2] = { { i, k1[x].how, k1[x].err } };
        long n1 = -1;
        if (mc_case()) {
          mc_note("%s, session {%s}, save points %d, save %d: call %ld (%s %s) %s%s", INI[a], LISTS[b], MASK[m], fs, i, K_NAME[R[i].kind], R[i].path,
            k1[x].how == F_SHORT1 || k1[x].how == F_SHORTH ? "is short" : k1[x].how == F_PART ? "is short, later ones fail" : k1[x].how == F_LAST ? "and all later ones fail: " : k1[x].how == F_LASTK ? "and all later ones of the kind fail: " : "fails: ", k1[x].err ? strerror(k1[x].err) : "");
          n1 = scenario(INI[a], LISTS[b], b & 1, MASK[m], fs, f, 1);
          memcpy(R2, REC, sizeof(R2));
          mc_state(mc_h2(mc_h2(mc_h2(a * 100 + b * 10 + m, fs), i), x));
          if (mc.evals % 900 == 5) mc_sample("%s", mc.note);
        }
        // a second fault later in the same save
        if (k1[x].how >= F_PART || n1 < 0) continue;
        if (!mc.thorough && (b + m + a) % 3) continue;
        for (j = i + 1; j < n1; j++) {
          int nk2 = kinds(&R2[j], k2);
          for (y = 0; y < nk2; y++) {
            if (!mc_case()) continue;
            if (k2[y].how >= F_LAST) continue;
            f[1].step = j; f[1].how = k2[y].how; f[1].err = k2[y].err;
            mc_note("%s, session {%s}, save points %d, save %d: call %ld (%s) fault %d/%d and call %ld (%s) fault %d/%d", INI[a], LISTS[b], MASK[m], fs, i, K_NAME[R[i].kind], k1[x].how, k1[x].err, j, K_NAME[R2[j].kind], k2[y].how, k2[y].err);
            scenario(INI[a], LISTS[b], b & 1, MASK[m], fs, f, 2);
            mc_state(mc_h2(mc_h2(mc_h2(mc_h2(mc_h2(a * 100 + b * 10 + m, fs), i), x), j + 1), y));
          }
        }
        if (mc.nfail >= 20) break;
      }
    }
  }
  // every read of the old file ends after every number of bytes, alone or with a read error after it
  for (a = 1; a < 7; a++) for (m = 0; m < 2; m++) for (b = 0; b < 16; b++) {
    if (!mc_group()) continue;
    if (mc_case()) mc_note("%s, no fault", INI[a]);
    long n = scenario(INI[a], LISTS[m], m, 0, 0, NULL, 0), i; memcpy(R, REC, sizeof(R));
    init_file(INI[a]); char *t = rd_file("r.srf"); long len = t ? (long)strlen(t) : 0, cut; free(t);
    for (i = 0; i < n; i++) if (R[i].kind == K_READ) for (cut = 1 + b; cut <= len + 1; cut += 16) for (int x = 0; x < 2; x++) {
      if (!mc.thorough && cut > 1200 && (cut / 16) % 16) continue;
      if (!mc_case()) continue;
      flt_t f = { i, F_CUT, x ? EIO : 0, cut };
      mc_note("%s, session {%s}: read call %ld ends after %ld bytes%s", INI[a], LISTS[m], i, cut, x ? ", further ones fail" : "");
      scenario(INI[a], LISTS[m], m, 0, 0, &f, 1);
      mc_state(mc_h2(mc_h2(a * 2 + m, i), cut * 2 + x));
      if (mc.nfail >= 20) break;
    }
  }
  return mc_done();
}
