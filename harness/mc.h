// Explorer support: deterministic numbering of cases, sharding, replay, progress breadcrumb, counters.
// A harness enumerates "groups" (unit of sharding) and "cases" inside a group.
#ifndef MC_H
#define MC_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <math.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

typedef struct {
  long shard, nshards, only_g, only_c; // only_g >= 0: replay of one group, up to only_c.
  int thorough, verbose;
  long g, c;            // current group and case in it
  uint64_t evals;       // executions of the implementation compared with the model
  uint64_t trans;       // model steps / API calls
  uint64_t skipped;     // not compared (e.g. model outcome ambiguous beyond the cap)
  uint64_t groups;
  int nfail;
  const char *out;
  FILE *fout;
  volatile int64_t *crumb; // mmapped: g, c
  char *note;              // mmapped note area
  int nsamples;
  char **argv; int argc;
} mc_t;
static mc_t mc = {0, 1, -1, -1};
#define MC_NOTE_LEN 3000

// ----- distinct state set
static uint64_t *mc_hs; static uint64_t mc_hs_cap, mc_hs_n, mc_hs_over;
static uint64_t mc_mix(uint64_t h) {
  h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
  return h;
}
static inline uint64_t mc_h2(uint64_t a, uint64_t b) { return mc_mix(a * 0x9E3779B97F4A7C15ULL + b + 0x632BE59BD9B4E019ULL); }
static uint64_t mc_hbytes(uint64_t h, const void *p, size_t n) {
  const unsigned char *s = (const unsigned char *)p;
  while (n >= 8) { uint64_t v; memcpy(&v, s, 8); h = mc_h2(h, v); s += 8; n -= 8; }
  uint64_t v = 0; memcpy(&v, s, n); return mc_h2(h, v ^ (n << 56));
}
static uint64_t mc_hstr(uint64_t h, const char *s) { return mc_hbytes(h, s, strlen(s)); }
// Returns 1 when the state is new.
static int mc_state(uint64_t h) {
  if (h == 0) h = 1;
  if (mc_hs_n * 2 >= mc_hs_cap) {
    if (mc_hs_cap >= (1ULL << 25)) { mc_hs_over++; return 0; }
    uint64_t nc = mc_hs_cap ? mc_hs_cap * 2 : 1 << 16, i, j;
    uint64_t *nt = (uint64_t *)calloc(nc, 8);
    for (i = 0; i < mc_hs_cap; i++) if (mc_hs[i]) {
      for (j = mc_hs[i] & (nc - 1); nt[j]; j = (j + 1) & (nc - 1));
      nt[j] = mc_hs[i];
    }
    free(mc_hs); mc_hs = nt; mc_hs_cap = nc;
  }
  uint64_t j;
  for (j = h & (mc_hs_cap - 1); mc_hs[j]; j = (j + 1) & (mc_hs_cap - 1)) if (mc_hs[j] == h) return 0;
  mc_hs[j] = h; mc_hs_n++;
  return 1;
}

static void mc_esc(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; s++) {
    unsigned char ch = (unsigned char)*s;
    if (ch == '"' || ch == '\\') { fputc('\\', f); fputc(ch, f); }
    else if (ch < 32 || ch > 126) fprintf(f, "\\u%04x", ch);
    else fputc(ch, f);
  }
  fputc('"', f);
}

static void mc_init(int argc, char **argv) {
  int i;
  const char *crumb = NULL;
  mc.argc = argc; mc.argv = argv;
  for (i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--shard")) mc.shard = atol(argv[++i]);
    else if (!strcmp(argv[i], "--nshards")) mc.nshards = atol(argv[++i]);
    else if (!strcmp(argv[i], "--group")) mc.only_g = atol(argv[++i]);
    else if (!strcmp(argv[i], "--case")) mc.only_c = atol(argv[++i]);
    else if (!strcmp(argv[i], "--out")) mc.out = argv[++i];
    else if (!strcmp(argv[i], "--crumb")) crumb = argv[++i];
    else if (!strcmp(argv[i], "--thorough")) mc.thorough = 1;
    else if (!strcmp(argv[i], "--verbose")) mc.verbose = 1;
  }
  mc.fout = mc.out ? fopen(mc.out, "w") : stdout;
  static int64_t dummy[2 + MC_NOTE_LEN / 8 + 2];
  mc.crumb = dummy;
  if (crumb) {
    int fd = open(crumb, O_RDWR | O_CREAT, 0600);
    if (fd >= 0 && ftruncate(fd, 4096) == 0) {
      void *p = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) mc.crumb = (int64_t *)p;
    }
    if (fd >= 0) close(fd);
  }
  mc.note = (char *)(mc.crumb + 4);
  mc.g = -1; mc.c = -1;
  mc.crumb[0] = mc.crumb[1] = -1;
}
// Start the next group. Returns 1 when this shard has to explore it.
static int mc_group(void) {
  mc.g++; mc.c = -1;
  if (mc.only_g >= 0) { if (mc.g != mc.only_g) return 0; }
  else if ((long)(mc_mix((uint64_t)mc.g + 77) % (uint64_t)mc.nshards) != mc.shard) return 0;
  mc.groups++;
  mc.crumb[0] = mc.g; mc.crumb[1] = -1;
  mc.note[0] = 0;
  return 1;
}
// Start the next case. Returns 1 when it is to be executed.
static int mc_case(void) {
  mc.c++;
  if (mc.only_c >= 0 && mc.c > mc.only_c) return 0;
  mc.crumb[1] = mc.c;
  return mc.nfail < 20;
}
static void mc_tick(void) { mc.crumb[2]++; }
// Is this the case under replay?
static int mc_hit(void) { return mc.only_c >= 0 && mc.only_c == mc.c; }
static void mc_note(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); vsnprintf(mc.note, MC_NOTE_LEN, fmt, ap); va_end(ap);
}
static void mc_fail(const char *sig, const char *fmt, ...) {
  char buf[8000];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof(buf), fmt, ap); va_end(ap);
  fprintf(mc.fout, "{\"fail\":1,\"g\":%ld,\"c\":%ld,\"sig\":", mc.g, mc.c);
  mc_esc(mc.fout, sig);
  fprintf(mc.fout, ",\"note\":"); mc_esc(mc.fout, mc.note);
  fprintf(mc.fout, ",\"msg\":"); mc_esc(mc.fout, buf); fprintf(mc.fout, "}\n");
  fflush(mc.fout);
  mc.nfail++;
}
static void mc_sample(const char *fmt, ...) {
  if (mc.nsamples >= 3) return;
  mc.nsamples++;
  char buf[3000];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof(buf), fmt, ap); va_end(ap);
  fprintf(mc.fout, "{\"sample\":"); mc_esc(mc.fout, buf); fprintf(mc.fout, "}\n");
}
static void mc_stat(const char *k, double v) { fprintf(mc.fout, "{\"stat\":\"%s\",\"v\":%.17g}\n", k, v); }
static int mc_done(void) {
  uint64_t i;
  fprintf(mc.fout, "{\"done\":1,\"evals\":%llu,\"trans\":%llu,\"skipped\":%llu,\"groups\":%llu,\"total_groups\":%ld,\"states\":%llu,\"over\":%llu}\n",
    (unsigned long long)mc.evals, (unsigned long long)mc.trans, (unsigned long long)mc.skipped,
    (unsigned long long)mc.groups, mc.g + 1, (unsigned long long)mc_hs_n, (unsigned long long)mc_hs_over);
  fflush(mc.fout);
  if (mc.out && mc.only_g < 0) {
    char fn[1000]; snprintf(fn, sizeof(fn), "%s.hs", mc.out);
    FILE *f = fopen(fn, "wb");
    if (f) {
      for (i = 0; i < mc_hs_cap; i++) if (mc_hs[i]) fwrite(&mc_hs[i], 8, 1, f);
      fclose(f);
    }
  }
  return mc.nfail ? 1 : 0;
}
// Deterministic generic amplitude in [lo, hi] for index i of profile p: irrational-looking, no ties.
static double mc_gen(int p, int i, double lo, double hi) {
  uint64_t h = mc_mix((uint64_t)(p + 1) * 1000003ULL + (uint64_t)i * 7919ULL + 12345);
  return lo + (hi - lo) * ((double)(h >> 11) / 9007199254740992.0);
}
#endif
