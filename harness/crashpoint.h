/* Included before the code under test only: every output call is a point at which the process can die
 * (CRASH_AT=k: before the k-th call; CRASH_COUNT=file: the number of calls is written there at exit). */
#ifndef CRASHPOINT_H
#define CRASHPOINT_H
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/stat.h>
void crash_point(void);
static inline int v_fprintf(FILE *f, const char *fmt, ...) { va_list a; int r; if (f != stdout && f != stderr) crash_point(); va_start(a, fmt); r = vfprintf(f, fmt, a); va_end(a); return r; }
static inline int v_fflush(FILE *f) { if (f != stdout && f != stderr) crash_point(); return fflush(f); }
static inline int v_fclose(FILE *f) { crash_point(); return fclose(f); }
static inline FILE *v_fopen(const char *p, const char *m) { crash_point(); return fopen(p, m); }
static inline int v_mkdir(const char *p, mode_t m) { crash_point(); return mkdir(p, m); }
#define fprintf v_fprintf
#define fflush v_fflush
#define fclose v_fclose
#define fopen v_fopen
#define mkdir v_mkdir
#endif
