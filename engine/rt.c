// Runtime of a replayed schedule: threads run one at a time, in the recorded order.
// usage: PROGRAM ENTRY CASES [name=value...]; a case is "hex-inputs schedule"
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <unistd.h>
typedef unsigned char u8; typedef unsigned long u64; typedef unsigned u32;
static u8 input[1 << 16]; static size_t ninput, ipos;
static char *sched = ""; static size_t nsched, spos;
static u8 obs[1 << 20]; static size_t nobs;
static int nparam; static char *pname[64]; static u64 pval[64];
static int expectPanic;
enum { RUN, DONE, FUTEX, JOIN, WAIT };
static struct { int st; const void *addr; int join; pthread_t h; void (*f)(u64); u64 arg; } T[9];
static int nthreads = 1, turn = 0;
static __thread int me = 0;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;

static void done(const char *kind, const char *msg, size_t n) {
  printf("RESULT\t%s\t", kind);
  for (size_t i = 0; i < nobs; i++) printf("%02x", obs[i]);
  printf("\t%.*s\n", (int)n, msg); fflush(stdout); _exit(0);
}
static int runnable(int t) {
  switch (T[t].st) { case RUN: return 1; case JOIN: return T[T[t].join].st == DONE; case WAIT: return *(volatile u8 *)T[t].addr != 0; }
  return 0;
}
static void handoff(int k) {
  pthread_mutex_lock(&mx);
  turn = k; pthread_cond_broadcast(&cv);
  while (turn != me) pthread_cond_wait(&cv, &mx);
  pthread_mutex_unlock(&mx);
}
static void switchAway(int othersOnly) {
  int k = -1;
  if (spos < nsched) { k = sched[spos] - '0'; if (k >= nthreads || !runnable(k)) done("diverged", "the recorded thread cannot run", 30); }
  else for (int i = 1; i <= nthreads; i++) { int t = (me + i) % nthreads; if (runnable(t) && !(othersOnly && t == me)) { k = t; break; } }
  if (k < 0) { if (othersOnly) return; done("deadlock", "no thread can run", 17); }
  if (k != me) handoff(k);
}
void __rt_point(void) {
  if (nthreads < 2) return;
  while (spos < nsched && sched[spos] - '0' != me) {
    int k = sched[spos] - '0';
    if (k >= nthreads || !runnable(k)) done("diverged", "the recorded thread cannot run", 30);
    handoff(k);
  }
  if (spos < nsched) spos++;
}
void __rt_pause(void) { if (nthreads > 1) switchAway(1); }
int __rt_yield(void) { if (nthreads > 1) switchAway(1); return 0; }
ssize_t getrandom(void *p, size_t n, unsigned f) {
  u64 h = 0; for (int i = 0; i < nparam; i++) if (!strcmp(pname[i], "hash")) h = pval[i];
  for (size_t i = 0; i < n; i++) ((u8 *)p)[i] = i * 37 + 11 + h * (i * 29 + 101);
  return n;
}
long __rt_syscall(long nr, ...) {
  va_list a; va_start(a, nr); long x = va_arg(a, long), y = va_arg(a, long), z = va_arg(a, long), v = va_arg(a, long), w = va_arg(a, long), u = va_arg(a, long); va_end(a);
  __rt_point();
  if (nr == SYS_futex) {
    int op = y & 0x7f;
    if (op == 0 || op == 9) {
      if (*(volatile u32 *)x != (u32)z) { errno = EAGAIN; return -1; }
      T[me].st = FUTEX; T[me].addr = (void *)x;
      do switchAway(0); while (T[me].st == FUTEX);
      return 0;
    }
    if (op == 1 || op == 10) { long n = 0; for (int t = 0; t < nthreads; t++) if (T[t].st == FUTEX && T[t].addr == (void *)x && n < (u32)z) { T[t].st = RUN; n++; } return n; }
  }
  if (nr == SYS_getrandom) return getrandom((void *)x, y, 0);
  return syscall(nr, x, y, z, v, w, u);
}

void __sym_bytes(u8 *p, size_t n) { for (size_t i = 0; i < n; i++) { p[i] = ipos < ninput ? input[ipos] : 0; ipos++; } }
void __sym_assume(_Bool c) { if (!c) done("assume", "", 0); }
void __sym_assert(_Bool c, const char *p, size_t n) { if (!c) done("assert", p, n); }
void __sym_observe(const u8 *p, size_t n) { if (nobs + n <= sizeof obs) { memcpy(obs + nobs, p, n); nobs += n; } }
void __sym_reach(u32 k) {}
void __sym_expect_panic(_Bool c) { expectPanic = c; }
void __sym_known(const u8 *p, size_t n) {}
u64 __sym_param(const char *p, size_t n, u64 d) { for (int i = 0; i < nparam; i++) if (strlen(pname[i]) == n && !memcmp(pname[i], p, n)) return pval[i]; return d; }
u64 __sym_concrete(u64 v) { return v; }
_Bool __sym_force(_Bool c) { return c; }
static void *body(void *p) {
  me = (int)(long)p;
  pthread_mutex_lock(&mx); while (turn != me) pthread_cond_wait(&cv, &mx); pthread_mutex_unlock(&mx);
  T[me].f(T[me].arg);
  T[me].st = DONE;
  switchAway(0);
  for (;;) pause();
}
u32 __sym_spawn(void (*f)(u64), u64 arg) {
  int t = nthreads; T[t].st = RUN; T[t].f = f; T[t].arg = arg; nthreads++;
  if (pthread_create(&T[t].h, 0, body, (void *)(long)t)) done("diverged", "pthread_create", 14);
  return t;
}
void __sym_join(u32 t) { while (T[t].st != DONE) { T[me].st = JOIN; T[me].join = t; switchAway(0); T[me].st = RUN; } }
void __sym_wait(const u8 *p) {
  for (;;) {
    __rt_point();
    if (*(volatile u8 *)p) return;
    T[me].st = WAIT; T[me].addr = p; switchAway(0); T[me].st = RUN;
  }
}
static void aborted(int s) { done(expectPanic ? "panic-expected" : "panic", "abort", 5); }
int main(int argc, char **argv) {
  void (*entry)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, argv[1]);
  if (!entry) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  for (int i = 3; i < argc; i++) { char *e = strchr(argv[i], '='); if (!e || nparam == 64) continue; *e = 0; pname[nparam] = argv[i]; pval[nparam++] = strtoull(e + 1, 0, 10); }
  unsigned secs = 10; for (int i = 0; i < nparam; i++) if (!strcmp(pname[i], "timeout")) secs = pval[i];
  FILE *f = fopen(argv[2], "r"); char *line = 0; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) {
    while (n && (line[n - 1] == '\n')) line[--n] = 0;
    fflush(stdout);
    pid_t p = fork();
    if (!p) {
      alarm(secs); signal(SIGABRT, aborted);
      char *sp = strchr(line, ' '); if (sp) { *sp = 0; sched = sp + 1; nsched = strlen(sched); }
      for (char *q = line; q[0] && q[1]; q += 2) { char h[3] = {q[0], q[1], 0}; input[ninput++] = strtoul(h, 0, 16); }
      entry(); done("ok", "", 0);
    }
    int st; waitpid(p, &st, 0);
    if (st) { int sig = st & 0x7f; printf("RESULT\t%s\t\tsignal %d\n", sig == SIGALRM ? "timeout" : sig == SIGABRT ? "panic" : "crash", sig); fflush(stdout); }
  }
  return 0;
}
