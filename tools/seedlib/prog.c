/* Clock of the program: every call of time() takes TSTEP seconds (times of calls in TJUMP take longer), file saves are logged. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
int __real_rename(const char *, const char *); static time_t now = 1000; static long calls;
time_t __wrap_time(time_t *t) { char *s = getenv("TSTEP"), *j = getenv("TJUMP"); calls++; now += s ? atoi(s) : 1; if (j && calls == atol(j)) now += atoi(strchr(j, ':') + 1); if (t) *t = now; return now; }
int __wrap_rename(const char *a, const char *b) { printf("SAVE %ld\n", (long)now - 1000); fflush(stdout); return __real_rename(a, b); }
