/* Performs calls on buffers of exactly their size in a program built with the address
   sanitizer: an access outside any object, the callee's own arrays included, ends it.
   argv: job file, result file.  Record: op, nargs, v, align, tapelen, tape, nargs x (len, isin, data),
   ncuts x u32 (op >= 20).  The results are appended and flushed call by call. */
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "paint.h"
#include "fips202.h"
#ifdef X4
#include "fips202x4.h"
#endif
#define CAT_(a, b, c) pqcrystals_kyber##a##_##b##_##c
#define CAT(a, b, c) CAT_(a, b, c)
#define F(n) CAT(SET, IMPL, n)
int F(keypair_derand)(uint8_t *, uint8_t *, const uint8_t *);
int F(keypair)(uint8_t *, uint8_t *);
int F(enc_derand)(uint8_t *, uint8_t *, const uint8_t *, const uint8_t *);
int F(enc)(uint8_t *, uint8_t *, const uint8_t *);
int F(dec)(uint8_t *, const uint8_t *, const uint8_t *);
void rng_set(const uint8_t *, size_t);
static uint8_t *job; static const uint8_t *p, *end;
static uint32_t u32(void) { uint32_t v; memcpy(&v, p, 4); p += 4; return v; }
int main(int argc, char **argv) {
  int fd = open(argv[1], O_RDONLY), o = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0600); long n = lseek(fd, 0, SEEK_END), r, t = 0;
  job = malloc(n); lseek(fd, 0, SEEK_SET); while ((r = read(fd, job + t, n - t)) > 0) t += r;
  p = job; end = job + n; (void)argc;
  while (p < end) {
    uint32_t op = u32(), na = u32(), v = u32(), al = u32(), tl = u32(), len[8], in[8], cuts[64], nc, i, st = 0; uint8_t *tape = malloc(tl + !tl), *m[8], *a[8];
    memcpy(tape, p, tl); p += tl; rng_set(tape, tl);
    for (i = 0; i < na; i++) {
      len[i] = u32(); in[i] = u32(); m[i] = malloc(len[i] + al); a[i] = m[i] + al; if (len[i]) memset(a[i], 0xA5, len[i]);
      if (in[i]) { memcpy(a[i], p, len[i]); p += len[i]; }
    }
    nc = u32(); for (i = 0; i < nc; i++) cuts[i] = u32();
    paint(v + 256 * al);
    switch (op) {
      case 0: st = F(keypair_derand)(a[0], a[1], a[2]); break;
      case 1: st = F(enc_derand)(a[0], a[1], a[2], a[3]); break;
      case 2: st = F(dec)(a[0], a[1], a[2]); break;
      case 3: st = F(keypair)(a[0], a[1]); break;
      case 4: st = F(enc)(a[0], a[1], a[2]); break;
      case 10: (v ? shake256 : shake128)(a[0], len[0], a[1], len[1]); break;
      case 11: (v ? sha3_512 : sha3_256)(a[0], a[1], len[1]); break;
      case 20: { /* cuts: how many of the message, then of the output; 1<<31: blocks */
        keccak_state *s = malloc(sizeof *s); uint8_t *q = a[1]; size_t f = cuts[0];
        (v ? shake256_init : shake128_init)(s);
        for (i = 1; i <= f; i++) { uint8_t *x = malloc(cuts[i]); memcpy(x, q, cuts[i]); (v ? shake256_absorb : shake128_absorb)(s, x, cuts[i]); free(x); q += cuts[i]; }
        (v ? shake256_finalize : shake128_finalize)(s); q = a[0];
        for (; i < nc; i++) {
          size_t b = cuts[i] & 0x7fffffff, l = cuts[i] >> 31 ? b * (v ? 136 : 168) : b; uint8_t *x = malloc(l);
          if (cuts[i] >> 31) (v ? shake256_squeezeblocks : shake128_squeezeblocks)(x, b, s); else (v ? shake256_squeeze : shake128_squeeze)(x, b, s);
          memcpy(q, x, l); free(x); q += l;
        }
        free(s); break; }
      case 21: { keccak_state *s = malloc(sizeof *s); (v ? shake256_absorb_once : shake128_absorb_once)(s, a[1], len[1]); (v ? shake256_squeezeblocks : shake128_squeezeblocks)(a[0], cuts[0], s); free(s); break; }
#ifdef X4
      case 12: (v ? shake256x4 : shake128x4)(a[0], a[1], a[2], a[3], len[0], a[4], a[5], a[6], a[7], len[4]); break;
      case 22: { keccakx4_state *s = aligned_alloc(32, (sizeof *s + 31) / 32 * 32); (v ? shake256x4_absorb_once : shake128x4_absorb_once)(s, a[4], a[5], a[6], a[7], len[4]);
        (v ? shake256x4_squeezeblocks : shake128x4_squeezeblocks)(a[0], a[1], a[2], a[3], cuts[0], s); free(s); break; }
#endif
    }
    { uint32_t x[1] = {st}; if (write(o, x, 4) != 4) return 3; }
    for (i = 0; i < na; i++) { if (len[i] && write(o, a[i], len[i]) != (long)len[i]) return 3; free(m[i]); }
    free(tape);
  }
  return 0;
}
