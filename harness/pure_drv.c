/* Calls of the library in a row, inside one another (single-stepping) and on threads. */
#define _GNU_SOURCE
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include "paint.h"
struct call { int kind, st; void *fn; uint8_t *a[4]; uint64_t outlen[2], digest, t0, t1; };
static uint64_t fnv(const uint8_t *p, uint64_t n, uint64_t h) { for (; n; n--) h = (h ^ *p++) * 0x100000001b3ULL; return h ^ (h >> 29); }
static uint64_t now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ULL + t.tv_nsec; }
static void poison(struct call *c) { memset(c->a[0], 0xC3, c->outlen[0]); if (c->outlen[1]) memset(c->a[1], 0x3C, c->outlen[1]); }
static void digest(struct call *c) { c->digest = fnv(c->a[0], c->outlen[0], 0xcbf29ce484222325ULL); if (c->outlen[1]) c->digest = fnv(c->a[1], c->outlen[1], c->digest); }
static void go(struct call *c) {
  if (c->kind == 0) c->st = ((int (*)(void *, void *, void *))c->fn)(c->a[0], c->a[1], c->a[2]);
  else if (c->kind == 1) c->st = ((int (*)(void *, void *, void *, void *))c->fn)(c->a[0], c->a[1], c->a[2], c->a[3]);
  else c->st = ((int (*)(void *, void *, void *))c->fn)(c->a[0], c->a[1], c->a[2]);
}
static volatile uint64_t np;
void one(struct call *c) { poison(c); paint(np++); c->t0 = now(); go(c); c->t1 = now(); digest(c); }
void seq(struct call *c, int n) { for (int i = 0; i < n; i++) one(c + i); }

/* what a fork of the process, made inside the outer call, saw */
struct fork { int st_in, st_out, how, pad; uint64_t in, out; };
static struct call *in; static const uint64_t *pt; static int npt; static volatile int nx, stop, child; static volatile uint64_t cnt;
static uint64_t *rec, nrec; static volatile struct fork *fk, *mine;
static void trap(int s, siginfo_t *si, void *u) {
  (void)s; (void)si; greg_t *g = ((ucontext_t *)u)->uc_mcontext.gregs;
  if (stop) { g[REG_EFL] &= ~0x100LL; return; }
  if (rec && cnt < nrec) rec[cnt] = g[REG_RIP];
  cnt++;
  while (nx < npt && cnt >= pt[nx]) {
    struct call *c = in + nx; nx++;
    if (!fk) { one(c); continue; }
    /* the rest of the outer call, after the inner one, happens in the fork; here it goes on undisturbed */
    long pid = syscall(SYS_fork);
    if (!pid) { signal(SIGALRM, SIG_DFL); alarm(20); child = 1; stop = 1; mine = fk + nx - 1; one(c); mine->in = c->digest; mine->st_in = c->st; g[REG_EFL] &= ~0x100LL; return; }
    int st = -1; if (pid > 0) waitpid(pid, &st, 0); fk[nx - 1].how = st;
  }
}
/* runs `outer' one instruction at a time; inner[i] runs when points[i] instructions have been executed:
   inside it, or (f) in a fork made there */
uint64_t stepped(struct call *outer, struct call *inner, const uint64_t *points, int n, struct fork *f, uint64_t *pcs, uint64_t npcs) {
  struct sigaction sa, old; memset(&sa, 0, sizeof sa); sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, &old);
  in = inner; pt = points; npt = n; nx = 0; cnt = 0; stop = 0; fk = f; rec = pcs; nrec = npcs;
  poison(outer); paint(np++);
  __asm__ volatile("sub $128,%%rsp; pushfq; orq $0x100,(%%rsp); popfq; add $128,%%rsp" ::: "memory", "cc");
  go(outer);
  stop = 1; __asm__ volatile("nop; nop" ::: "memory");
  digest(outer);
  if (child) { mine->out = outer->digest; mine->st_out = outer->st; _exit(0); }
  sigaction(SIGTRAP, &old, 0);
  return cnt;
}
int reached(void) { return nx; }

struct th { struct call *c; int n; pthread_barrier_t *b; };
static void *run(void *p) { struct th *t = p; pthread_barrier_wait(t->b); seq(t->c, t->n); return 0; }
int threads(struct call *c, int per, int n) {
  pthread_t id[64]; struct th t[64]; pthread_barrier_t b; pthread_attr_t at; pthread_barrier_init(&b, 0, n); pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4 << 20);
  for (int i = 0; i < n; i++) { t[i] = (struct th){c + i * per, per, &b}; if (pthread_create(id + i, &at, run, t + i)) return 1; }
  for (int i = 0; i < n; i++) pthread_join(id[i], 0);
  return 0;
}
/* the same few calls over and over; position of the first call that differs from its first performance, or -1 */
int64_t many(struct call *c, int n, int64_t reps, uint64_t *first) {
  for (int i = 0; i < n; i++) { one(c + i); first[i] = c[i].digest; }
  for (int64_t j = n; j < reps; j++) { struct call *x = c + j % n; poison(x); paint(j); go(x); digest(x); if (x->digest != first[j % n] || x->st) return j; }
  return -1;
}
