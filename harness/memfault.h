// Failing allocations (linked with --wrap): the allocations of the code under test are numbered while mf_on is set;
// numbers mf_a..mf_b, mf_c fail.
#ifndef MEMFAULT_H
#define MEMFAULT_H
static long mf_n, mf_a = -1, mf_b = -1, mf_c = -1; static int mf_on, mf_failed;
static void mf_clear(void) { mf_n = 0; mf_a = mf_b = mf_c = -1; mf_failed = 0; mf_on = 0; }
static int mf_fail(void) { if (!mf_on) return 0; long i = mf_n++; if ((i >= mf_a && i <= mf_b) || (i == mf_c && i >= 0)) { mf_failed++; return 1; } return 0; }
static const char *mf_desc(void) { static char b[80]; snprintf(b, sizeof(b), "allocations %ld-%ld, %ld", mf_a, mf_b, mf_c); return b; }
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); char *__real_strdup(const char *);
void *__wrap_malloc(size_t n) { return mf_fail() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t s) { return mf_fail() ? NULL : __real_calloc(n, s); }
void *__wrap_realloc(void *p, size_t n) { return mf_fail() ? NULL : __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { return mf_fail() ? NULL : __real_strdup(s); }
#endif
