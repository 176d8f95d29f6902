/* Included before the code under test only (instrumented build): files are used between opening and closing only, and
 * none is left open at the end. */
#ifndef FILES_H
#define FILES_H
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
static FILE *v_open[4096];
static char v_name[4096][200];
static void v_bad(const char *what, const char *which) { fprintf(stderr, "ERROR: %s %s\n", what, which); fflush(stderr); _exit(97); }
static void v_end(void) { int i; for (i = 0; i < 4096; i++) if (v_open[i]) v_bad("a file is left open:", v_name[i]); }
static int v_at(FILE *f) { int i; for (i = 0; i < 4096; i++) if (v_open[i] == f) return i; return -1; }
static FILE *v_ok(FILE *f) { if (f != stdout && f != stderr && f != stdin && (!f || v_at(f) < 0)) v_bad("a file that is not open", "is used"); return f; }
static FILE *v_fopen(const char *p, const char *m) {
  static int first = 1;
  FILE *f = fopen(p, m);
  int i = v_at(NULL);
  if (first) { first = 0; atexit(v_end); }
  if (f && i >= 0) { v_open[i] = f; snprintf(v_name[i], sizeof v_name[i], "%s", p); }
  return f;
}
static int v_fclose(FILE *f) { v_open[v_at(v_ok(f))] = NULL; return fclose(f); }
static int v_fprintf(FILE *f, const char *fmt, ...) { va_list a; int r; va_start(a, fmt); r = vfprintf(v_ok(f), fmt, a); va_end(a); return r; }
#define fopen v_fopen
#define fclose v_fclose
#define fprintf v_fprintf
#define vfprintf(f, a, b) vfprintf(v_ok(f), a, b)
#define fflush(f) fflush(v_ok(f))
#define fputs(s, f) fputs(s, v_ok(f))
#define fputc(c, f) fputc(c, v_ok(f))
#define fwrite(a, b, c, f) fwrite(a, b, c, v_ok(f))
#define fgets(a, b, f) fgets(a, b, v_ok(f))
#endif
