/* Counts, cuts and fails the file operations of a process below one directory.
   Preloaded into the harness; only a forked child arms it. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

enum { OFF, COUNT, CRASH, MID, FAIL, VECTOR };
#define MAXF 8
static char root[512];
static int mode = OFF, at = 0, nops = 0, nfiles = 0;
static char names[MAXF][128];
static int budget[MAXF];
static int progress = 0;
static FILE *oplog = NULL;
static char fdin[65536];
static char fdpath[65536][256];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

#define REAL(ret, name, ...) \
  static ret (*real)(__VA_ARGS__) = NULL; \
  if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name);

void vf_root(const char *r) { strncpy(root, r, sizeof root - 1); }
void vf_name(int i, const char *n) { strncpy(names[i], n, 127); if (nfiles <= i) nfiles = i + 1; }
void vf_budget(int i, int b) { budget[i] = b; }
int vf_ops(void) { return nops; }
int vf_progress(void) { return progress; }
static char kinds[4096];
const char *vf_kinds(void) { return kinds; }
void vf_arm(int m, int a) { nops = 0; kinds[0] = 0; at = a; mode = m; }

static int inside(const char *p) { return root[0] && p && !strncmp(p, root, strlen(root)); }
static int fileof(const char *p) {
  int best = -1; size_t len = 0;
  for (int i = 0; i < nfiles; i++)
    if (strstr(p, names[i]) && strlen(names[i]) > len) { best = i; len = strlen(names[i]); }
  return best;
}
static void block(void) {  /* for good, but letting the other threads run */
  int (*held)(void) = (int (*)(void))dlsym(RTLD_DEFAULT, "PyGILState_Check");
  void *(*release)(void) = (void *(*)(void))dlsym(RTLD_DEFAULT, "PyEval_SaveThread");
  if (held && release && held()) release();
  for (;;) pause();
}
static void *watch(void *arg) {  /* stops the process once nothing moves */
  int last = -1, quiet = 0;
  for (;;) {
    usleep(5000);
    if (progress != last) { last = progress; quiet = 0; }
    else if (++quiet > 16) _exit(77);
  }
  return arg;
}
void vf_watch(void) { pthread_t t; pthread_create(&t, NULL, watch, NULL); }
/* 0 proceed, 1 fail, 2 stop in the middle of it */
static int gate(char kind, const char *p) {
  if (mode == OFF || !inside(p)) return 0;
  pthread_mutex_lock(&mu);
  int k = ++nops;
  if (k < 4000) { kinds[k - 1] = kind; kinds[k] = 0; }
  pthread_mutex_unlock(&mu);
  if (mode == CRASH && k == at) _exit(77);
  if (mode == MID && k == at) { if (kind == 'w') return 2; _exit(77); }
  if (mode == FAIL && k == at) return 1;
  if (mode == VECTOR) {
    int f = fileof(p);
    if (f >= 0) {
      pthread_mutex_lock(&mu);
      int ok = budget[f]-- > 0;
      progress++;
      pthread_mutex_unlock(&mu);
      if (!ok) block();
    }
  }
  return 0;
}
static void track(int fd, const char *p) {
  if (fd >= 0 && fd < 65536) {
    fdin[fd] = inside(p);
    if (fdin[fd]) { strncpy(fdpath[fd], p, 255); }
  }
}
static const char *pathof(int fd) { return fd >= 0 && fd < 65536 && fdin[fd] ? fdpath[fd] : NULL; }

#define WRITES(fl) ((fl) & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND))
#define OPENLIKE(name) \
int name(const char *p, int fl, ...) { \
  REAL(int, name, const char *, int, ...) \
  va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap); \
  if (WRITES(fl) && gate('o', p)) { errno = EIO; return -1; } \
  int fd = real(p, fl, m); track(fd, p); return fd; }
OPENLIKE(open)
OPENLIKE(open64)
#define OPENATLIKE(name) \
int name(int d, const char *p, int fl, ...) { \
  REAL(int, name, int, const char *, int, ...) \
  va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap); \
  if (WRITES(fl) && gate('o', p)) { errno = EIO; return -1; } \
  int fd = real(d, p, fl, m); track(fd, p); return fd; }
OPENATLIKE(openat)
OPENATLIKE(openat64)
#define FOPENLIKE(name) \
FILE *name(const char *p, const char *m) { \
  REAL(FILE *, name, const char *, const char *) \
  if (strpbrk(m, "wa+") && gate('o', p)) { errno = EIO; return NULL; } \
  FILE *f = real(p, m); if (f) track(fileno(f), p); return f; }
FOPENLIKE(fopen)
FOPENLIKE(fopen64)
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) {
  REAL(size_t, fwrite, const void *, size_t, size_t, FILE *)
  const char *p = mode ? pathof(fileno(f)) : NULL;
  if (p) {
    int g = gate('w', p);
    if (g == 1) { errno = ENOSPC; real(b, 1, s * n / 2, f); return n / 2; }
    if (g == 2) { real(b, 1, s * n / 2, f); fflush(f); _exit(77); }
  }
  return real(b, s, n, f);
}
ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, write, int, const void *, size_t)
  const char *p = mode ? pathof(fd) : NULL;
  if (p) {
    int g = gate('w', p);
    if (g == 1) { errno = ENOSPC; return -1; }
    if (g == 2) { real(fd, b, n / 2); _exit(77); }
  }
  return real(fd, b, n);
}
int fflush(FILE *f) {
  REAL(int, fflush, FILE *)
  const char *p = mode && f ? pathof(fileno(f)) : NULL;
  if (p && gate('f', p)) { errno = EIO; return EOF; }
  return real(f);
}
int fclose(FILE *f) {
  REAL(int, fclose, FILE *)
  int fd = fileno(f);
  const char *p = mode ? pathof(fd) : NULL;
  if (p) {
    int g = gate('c', p);
    fdin[fd] = 0;
    if (g == 1) { real(f); errno = EIO; return EOF; }
  }
  if (fd >= 0 && fd < 65536) fdin[fd] = 0;
  return real(f);
}
int close(int fd) {
  REAL(int, close, int)
  if (fd >= 0 && fd < 65536) fdin[fd] = 0;
  return real(fd);
}
int rename(const char *a, const char *b) {
  REAL(int, rename, const char *, const char *)
  if (gate('r', b)) { errno = EIO; return -1; }
  return real(a, b);
}
int renameat(int x, const char *a, int y, const char *b) {
  REAL(int, renameat, int, const char *, int, const char *)
  if (gate('r', b)) { errno = EIO; return -1; }
  return real(x, a, y, b);
}
int renameat2(int x, const char *a, int y, const char *b, unsigned fl) {
  REAL(int, renameat2, int, const char *, int, const char *, unsigned)
  if (gate('r', b)) { errno = EIO; return -1; }
  return real(x, a, y, b, fl);
}
int unlink(const char *p) {
  REAL(int, unlink, const char *)
  if (gate('u', p)) { errno = EIO; return -1; }
  return real(p);
}
int mkdir(const char *p, mode_t m) {
  REAL(int, mkdir, const char *, mode_t)
  if (gate('m', p)) { errno = EIO; return -1; }
  return real(p, m);
}
