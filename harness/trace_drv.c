/* Runs recorded calls between two markers, for a tracer to watch.
   argv[1]: job file, argv[2]: result file. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#define CAT_(a, b, c) pqcrystals_kyber##a##_##b##_##c
#define CAT(a, b, c) CAT_(a, b, c)
#define F(n) CAT(SET, IMPL, n)
int F(keypair_derand)(uint8_t *, uint8_t *, const uint8_t *);
int F(keypair)(uint8_t *, uint8_t *);
int F(enc_derand)(uint8_t *, uint8_t *, const uint8_t *, const uint8_t *);
int F(enc)(uint8_t *, uint8_t *, const uint8_t *);
int F(dec)(uint8_t *, const uint8_t *, const uint8_t *);
void rng_set(const uint8_t *, size_t);
#define W_(p, b) p##_pqcrystals_kyber_fips202_##b##_sha3_512
#define WW(p, b) W_(p, b)
#define W(p) WW(p, IMPL)
#ifndef NOWRAP
void W(__real)(uint8_t *, const uint8_t *, size_t);
#endif
#define ARENA 8192
uint8_t trace_arena[4][ARENA] __attribute__((aligned(4096)));
volatile uint32_t trace_mark;
static uint8_t rho[32];
static uint32_t fix, fixed;
static uint8_t tape[256];
#ifndef NOWRAP
/* with `fix' the first half of the next SHA3-512 value is a chosen matrix seed */
void W(__wrap)(uint8_t *h, const uint8_t *in, size_t n) {
  W(__real)(h, in, n);
  if (fix) { memcpy(h, rho, 32); fix = 0; fixed = 1; }
}
#endif
/* divisions: breakpoints between the markers, a digest of the operands of every one executed */
static struct site { uint64_t at, disp; uint8_t kind, a, b, scale, size, byte; } site[512];
static long nsite; static struct site *stepping; static uint64_t dcount, dhash;
static const int G[16] = {REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15};
static void mix(uint64_t v) { dhash = (dhash ^ v) * 1099511628211ull; dhash ^= dhash >> 31; }
static void on_trap(int sg, siginfo_t *si, void *u) {
  greg_t *g = ((ucontext_t *)u)->uc_mcontext.gregs; (void)sg; (void)si;
  if (stepping) { *(volatile uint8_t *)stepping->at = 0xCC; stepping = 0; g[REG_EFL] &= ~0x100; return; }
  for (struct site *s = site; s < site + nsite; s++) if (s->at == (uint64_t)g[REG_RIP] - 1) {
    uint64_t m = s->size == 8 ? ~0ull : (1ull << 8 * s->size) - 1, v = 0;
    dcount++; mix(s->at);
    if (s->kind < 2) {           /* the dividend and the divisor */
      mix(g[REG_RAX] & (s->size == 1 ? 0xFFFF : m)); if (s->size > 1) mix(g[REG_RDX] & m);
      if (s->kind == 0) v = (s->a & 16 ? g[G[s->a & 15]] >> 8 : g[G[s->a & 15]]);
      else { uint64_t p = s->disp; if (s->a < 16) p += g[G[s->a]]; if (s->b < 16) p += g[G[s->b]] * s->scale; memcpy(&v, (void *)p, s->size); }
      mix(v & m);
    } else {                     /* floating point: the registers named */
      struct _libc_xmmreg *x = ((ucontext_t *)u)->uc_mcontext.fpregs->_xmm;
      for (int r = 0; r < 16; r++) if (s->disp >> r & 1) for (int j = 0; j < 4; j++) mix(x[r].element[j]);
    }
    *(volatile uint8_t *)s->at = s->byte; g[REG_RIP]--; g[REG_EFL] |= 0x100; stepping = s; return;
  }
  _exit(9);
}
static void arm(int on) {
  dcount = on ? 0 : dcount; dhash = on ? 1469598103934665603ull : dhash;
  for (struct site *s = site; s < site + nsite; s++) *(volatile uint8_t *)s->at = on ? 0xCC : s->byte;
}
static void sites(const char *f) {
  int fd = open(f, O_RDONLY); uint8_t b[21];
  while (nsite < 512 && read(fd, b, 21) == 21) {
    struct site *s = &site[nsite++]; memcpy(&s->at, b, 8); memcpy(&s->disp, b + 8, 8); s->kind = b[16]; s->a = b[17]; s->b = b[18]; s->scale = b[19]; s->size = b[20];
    mprotect((void *)(s->at & ~4095ull), 8192, 7); s->byte = *(uint8_t *)s->at;
  }
  close(fd);
  struct sigaction sa = {0}; sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, 0);
}
static uint8_t job[1 << 22], res[1 << 22];
static uint32_t u32(const uint8_t **p) { uint32_t v; memcpy(&v, *p, 4); *p += 4; return v; }
int main(int argc, char **argv) {
  int fd = open(argv[1], O_RDONLY); size_t n = 0; long r;
  if (argc < 3 || fd < 0) return 2;
  while ((r = read(fd, job + n, sizeof job - n)) > 0) n += r;
  close(fd);
  if (argc > 3) sites(argv[3]);
  const uint8_t *p = job, *end = job + n; uint8_t *q = res;
  while (p < end) {
    /* op, fixrho, fill, rho[32], tapelen, tape, 4 x (offset, length, isinput, data if input) */
    uint32_t op = u32(&p), fx = u32(&p), fill = u32(&p), off[4], len[4], in[4]; int st = -99;
    memcpy(rho, p, 32); p += 32;
    uint32_t tl = u32(&p); memcpy(tape, p, tl); rng_set(tape, tl); p += tl;
    memset(trace_arena, (int)fill, sizeof trace_arena);
    for (int i = 0; i < 4; i++) {
      off[i] = u32(&p); len[i] = u32(&p); in[i] = u32(&p);
      if (in[i]) { memcpy(trace_arena[i] + off[i], p, len[i]); p += len[i]; }
    }
    uint8_t *a = trace_arena[0] + off[0], *b = trace_arena[1] + off[1], *c = trace_arena[2] + off[2], *d = trace_arena[3] + off[3];
    fix = fx; fixed = 0;
    if (nsite) arm(1);
    trace_mark = 1;
    switch (op) {
      case 0: st = F(keypair_derand)(a, b, c); break;
      case 1: st = F(enc_derand)(a, b, c, d); break;
      case 2: st = F(dec)(a, b, c); break;
      case 3: st = F(keypair)(a, b); break;
      case 4: st = F(enc)(a, b, c); break;
    }
    trace_mark = 2;
    if (nsite) arm(0);
    memcpy(q, &st, 4); memcpy(q + 4, &fixed, 4); memcpy(q + 8, &dcount, 8); memcpy(q + 16, &dhash, 8); q += 24;
    for (int i = 0; i < 4; i++) {
      uint32_t bad = 0;
      memcpy(q, &bad, 4); q += 4;
      memcpy(q, trace_arena[i] + off[i], len[i]); q += len[i];
    }
  }
  fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0600);
  for (uint8_t *o = res; o < q; o += r) if ((r = write(fd, o, q - o)) <= 0) return 3;
  close(fd);
  return 0;
}
