#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
static long n, at = -1;
static void count(void) { const char *f = getenv("CRASH_COUNT"); if (f) { FILE *h = fopen(f, "w"); if (h) { fprintf(h, "%ld\n", n); fclose(h); } } }
void crash_point(void) {
  if (at == -1) { const char *s = getenv("CRASH_AT"); at = s ? atol(s) : 0; atexit(count); }
  n++;
  if (at > 0 && n == at) _exit(77);
}
