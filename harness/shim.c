/* LD_PRELOAD: file system calls on paths that contain $GATE_MATCH wait until the scheduler lets them go on.
   GATE_OUT / GATE_IN: inherited file descriptors; one line out before the call, one byte back. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
static void gate(const char *op, const char *path) {
  const char *m = getenv("GATE_MATCH"), *o = getenv("GATE_OUT"), *i = getenv("GATE_IN");
  char b[1024], c; int n;
  if (!m || !o || !i || !path || !strstr(path, m)) return;
  n = snprintf(b, sizeof b, "%s %s\n", op, path);
  if (write(atoi(o), b, (size_t) n) != n) _exit(77);
  if (read(atoi(i), &c, 1) != 1) _exit(78);
}
#define NEXT(f) ((f##_t) dlsym(RTLD_NEXT, #f))
typedef int (*mkdir_t)(const char *, mode_t);
int mkdir(const char *p, mode_t m) { gate("mkdir", p); return NEXT(mkdir)(p, m); }
typedef int (*mkdirat_t)(int, const char *, mode_t);
int mkdirat(int d, const char *p, mode_t m) { gate("mkdir", p); return NEXT(mkdirat)(d, p, m); }
typedef int (*rmdir_t)(const char *);
int rmdir(const char *p) { gate("rmdir", p); return NEXT(rmdir)(p); }
typedef int (*access_t)(const char *, int);
int access(const char *p, int m) { gate("access", p); return NEXT(access)(p, m); }
typedef int (*stat_t)(const char *, struct stat *);
int stat(const char *p, struct stat *s) { gate("stat", p); return NEXT(stat)(p, s); }
typedef int (*lstat_t)(const char *, struct stat *);
int lstat(const char *p, struct stat *s) { gate("stat", p); return NEXT(lstat)(p, s); }
typedef int (*rename_t)(const char *, const char *);
int rename(const char *p, const char *q) { gate("rename", q); return NEXT(rename)(p, q); }
typedef DIR *(*opendir_t)(const char *);
DIR *opendir(const char *p) { gate("opendir", p); return NEXT(opendir)(p); }
typedef FILE *(*fopen_t)(const char *, const char *);
FILE *fopen(const char *p, const char *m) { gate("fopen", p); return NEXT(fopen)(p, m); }
typedef int (*open_t)(const char *, int, ...);
int open(const char *p, int fl, ...) { va_list a; mode_t m; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); gate("open", p); return NEXT(open)(p, fl, m); }
