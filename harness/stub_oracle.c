/* The fips202 / fips202x4 interface of /repo implemented over an abstract,
 * programmable, recording sponge ("random oracle world").  A Keccak query is
 * (rate, domain byte, input); its answer is a byte stream: a programmed prefix
 * if the harness set one, else the real SHAKE/SHA-3 stream (own Keccak).
 * States hold an index into an immutable store, so copying a state works. */
#include <stdlib.h>
#include <string.h>
#include "fips202.h"
#ifdef ORC_X4
#include "fips202x4.h"
#endif
#include "hk.h"

#define MAGIC 0x6f7261636c653031ULL
typedef struct { unsigned rate; uint8_t ds; size_t inlen, outread; uint8_t *in, *got; size_t ngot; } obj;      /* got: the answer as far as it was computed */
static obj *O; static size_t nO, capO;
typedef struct { unsigned rate; uint8_t ds; size_t inlen, outlen; uint8_t *in, *out; } prog;
static prog *P; static size_t nP, capP;
static int foreign;

#define EXPORT __attribute__((visibility("default")))
EXPORT void orc_reset(void) {
  for (size_t i = 0; i < nO; i++) { free(O[i].in); free(O[i].got); }
  for (size_t i = 0; i < nP; i++) { free(P[i].in); free(P[i].out); }
  nO = nP = 0; foreign = 0;
}
EXPORT void orc_clearlog(void) { for (size_t i = 0; i < nO; i++) { free(O[i].in); free(O[i].got); } nO = 0; }
EXPORT int orc_foreign(void) { return foreign; }
static uint8_t *dup(const uint8_t *p, size_t n) { uint8_t *q = malloc(n ? n : 1); if (n) memcpy(q, p, n); return q; }
EXPORT void orc_program(unsigned rate, uint8_t ds, const uint8_t *in, size_t inlen, const uint8_t *out, size_t outlen) {
  if (nP == capP) P = realloc(P, (capP = capP ? 2*capP : 64) * sizeof *P);
  P[nP++] = (prog){rate, ds, inlen, outlen, dup(in, inlen), dup(out, outlen)};
}
/* a style: answers that no real sponge would give, a function of the query and the style's number; 0: none */
static uint64_t style;
EXPORT void orc_style(uint64_t s) { style = s; }
static uint64_t mix(uint64_t *x) { uint64_t z = (*x += 0x9E3779B97F4A7C15ULL); z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9ULL; z = (z ^ z >> 27) * 0x94D049BB133111EBULL; return z ^ z >> 31; }
static const uint8_t edge[16] = {0, 255, 1, 128, 0x7f, 0x80, 0xfe, 0x0d, 0xd0, 0xf0, 0x0f, 0x55, 0xaa, 0x33, 0xcc, 0x11};
static void styled(uint8_t *out, size_t n, unsigned rate, uint8_t ds, const uint8_t *in, size_t inlen) {
  uint64_t x = style ^ (uint64_t)rate << 32 ^ ds, a; size_t i, m = rate == 168 ? 168 * 5 : n, w;       /* a matrix stream must end */
  for (i = 0; i < inlen; i++) x = (x ^ in[i]) * 0x100000001b3ULL;
  a = mix(&x); uint64_t p = mix(&x); w = (size_t)1 << (a >> 8 & 7);
  for (i = 0; i < n && i < m; i += w) {
    uint64_t r = mix(&x); size_t l = n - i < w ? n - i : w; int e = edge[r >> 8 & 15]; if (rate == 168 && e == 255 && (a & 15) < 3) e = 0x0c;
    switch (a & 15) {
      case 0: memset(out + i, edge[p & 15], l); break;                              /* one byte */
      case 1: memset(out + i, e, l); break;                                         /* runs */
      case 2: case 3: case 4: if ((r & 7) < (p & 7)) memset(out + i, e, l); break;        /* some runs */
      case 5: case 6: if ((r & 63) == 0) memset(out + i, p & 64 ? 0 : e, l); break;
      case 7: if (i) memcpy(out + i, out + (i >= w ? i - w : 0), l); break;         /* a repeated word */
    }
  }
  if (rate == 168 && style >> 63 && (p >> 8 & 31) == 0) {                          /* very long streams: nothing is accepted for hundreds of blocks, or next to nothing */
    uint64_t b = mix(&x); m = p & 1 << 13 ? 5 + (b & 31) : p & 1 << 14 ? (size_t)1 << (b & 7) : 5 + b % 595; m = 168 * m + ((b >> 32 & 3) ? 0 : (b >> 40) % 168);
    for (i = 0; i < n && i < m; i++) out[i] = 255;
    if (b >> 34 & 1) for (i = 0; i < n && i < m; i += 168 * 7) out[i] = out[i + 1 < n ? i + 1 : i] = 0;
    return;
  }
  x = a ^ (p << 1);
  if (rate == 168 && (a & 15) >= 8 && (a & 15) < 12)                               /* many rejections: candidates of q and more */
    for (i = 0; i < n && i < m; i += 3) { uint64_t r = mix(&x); uint8_t o[3] = {0, 0, 0};
      if ((r & 15) < (p & 15)) { o[0] = 1; o[1] = 0x0d; }
      if ((r >> 4 & 15) < (p >> 4 & 15)) { o[1] |= 0x10; o[2] = 0xd0; }
      for (w = 0; w < 3 && i + w < n; w++) out[i + w] |= o[w]; }
}
/* bytes [0,n) of the answer */
EXPORT void orc_answer(uint8_t *out, size_t n, unsigned rate, uint8_t ds, const uint8_t *in, size_t inlen) {
  hk_sponge(out, n, in, inlen, rate, ds);
  if (style) styled(out, n, rate, ds, in, inlen);
  for (size_t i = nP; i-- > 0;)
    if (P[i].rate == rate && P[i].ds == ds && P[i].inlen == inlen && !memcmp(P[i].in, in, inlen)) {
      memcpy(out, P[i].out, P[i].outlen < n ? P[i].outlen : n); return;
    }
}
EXPORT size_t orc_count(void) { return nO; }
EXPORT int orc_get(size_t i, unsigned *rate, unsigned *ds, size_t *inlen, size_t *outread, const uint8_t **in) {
  if (i >= nO) return 0;
  *rate = O[i].rate; *ds = O[i].ds; *inlen = O[i].inlen; *outread = O[i].outread; *in = O[i].in; return 1;
}
static size_t newobj(unsigned rate, const uint8_t *a, size_t na, const uint8_t *b, size_t nb) {
  if (nO == capO) O = realloc(O, (capO = capO ? 2*capO : 256) * sizeof *O);
  uint8_t *in = malloc(na + nb ? na + nb : 1);
  if (na) memcpy(in, a, na);
  if (nb) memcpy(in + na, b, nb);
  O[nO] = (obj){rate, 0, na + nb, 0, in, 0, 0};
  return nO++;
}
static void answer_range(size_t id, size_t off, uint8_t *out, size_t n) {
  obj *o = &O[id];
  if (off + n > o->ngot) {
    o->ngot = off + n > 2 * o->ngot ? off + n : 2 * o->ngot; if (o->rate == 168 && o->ngot < 504) o->ngot = 504;
    free(o->got); o->got = malloc(o->ngot + 1);
    orc_answer(o->got, o->ngot, o->rate, o->ds, o->in, o->inlen);
  }
  memcpy(out, o->got + off, n);
  if (off + n > o->outread) o->outread = off + n;
}
/* the same without a state (model.c) */
EXPORT void orc_query(uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen, unsigned rate, uint8_t ds) {
  size_t id = newobj(rate, 0, 0, in, inlen); O[id].ds = ds; answer_range(id, 0, out, outlen); }
EXPORT size_t orc_open(const uint8_t *in, size_t inlen, unsigned rate, uint8_t ds) { size_t id = newobj(rate, 0, 0, in, inlen); O[id].ds = ds; return id; }
EXPORT void orc_read(size_t id, size_t off, uint8_t *out, size_t n) { answer_range(id, off, out, n); }
/* lane layout of a stub state: [MAGIC, id, squeezed, finalized] */
static int ok(const uint64_t *s) { if (s[0] != MAGIC || s[1] >= nO) { foreign = 1; return 0; } return 1; }
static void st(uint64_t *s, size_t id, size_t off) { s[0] = MAGIC; s[1] = id; s[2] = off; }

/* the state structs are used as opaque storage: their field names do not matter */
#define W(k) ((uint64_t *)(void *)(k))
#define VARIANT(N, R) \
void N##_init(keccak_state *k) { memset(k, 0, sizeof *k); st(W(k), newobj(R, 0, 0, 0, 0), 0); } \
void N##_absorb(keccak_state *k, const uint8_t *in, size_t n) { if (!ok(W(k))) return; \
  obj o = O[W(k)[1]]; st(W(k), newobj(R, o.in, o.inlen, in, n), 0); } \
void N##_finalize(keccak_state *k) { if (!ok(W(k))) return; O[W(k)[1]].ds = 0x1F; } \
void N##_squeeze(uint8_t *out, size_t n, keccak_state *k) { if (!ok(W(k))) return; \
  answer_range(W(k)[1], W(k)[2], out, n); W(k)[2] += n; } \
void N##_absorb_once(keccak_state *k, const uint8_t *in, size_t n) { memset(k, 0, sizeof *k); \
  size_t id = newobj(R, 0, 0, in, n); O[id].ds = 0x1F; st(W(k), id, 0); } \
void N##_squeezeblocks(uint8_t *out, size_t nb, keccak_state *k) { if (!ok(W(k))) return; \
  W(k)[2] = (W(k)[2] + R - 1) / R * R; answer_range(W(k)[1], W(k)[2], out, nb*R); W(k)[2] += nb*R; } \
void N(uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen) { \
  size_t id = newobj(R, 0, 0, in, inlen); O[id].ds = 0x1F; answer_range(id, 0, out, outlen); }
VARIANT(shake128, 168)
VARIANT(shake256, 136)
void sha3_256(uint8_t h[32], const uint8_t *in, size_t n) { size_t id = newobj(136, 0, 0, in, n); O[id].ds = 6; answer_range(id, 0, h, 32); }
void sha3_512(uint8_t h[64], const uint8_t *in, size_t n) { size_t id = newobj(72, 0, 0, in, n); O[id].ds = 6; answer_range(id, 0, h, 64); }

#ifdef ORC_X4
/* lane l of a 4-way state uses 64-bit element l of vectors 0..2 */
#define L(k, i, l) (W(k)[4*(i) + (l)])
#define VARIANT4(N, R) \
void N##x4_absorb_once(keccakx4_state *k, const uint8_t *a, const uint8_t *b, const uint8_t *c, const uint8_t *d, size_t n) { \
  const uint8_t *p[4] = {a, b, c, d}; memset(k, 0, sizeof *k); \
  for (int l = 0; l < 4; l++) { size_t id = newobj(R, 0, 0, p[l], n); O[id].ds = 0x1F; L(k,0,l) = MAGIC; L(k,1,l) = id; L(k,2,l) = 0; } } \
void N##x4_squeezeblocks(uint8_t *a, uint8_t *b, uint8_t *c, uint8_t *d, size_t nb, keccakx4_state *k) { \
  uint8_t *p[4] = {a, b, c, d}; \
  for (int l = 0; l < 4; l++) { if (L(k,0,l) != MAGIC || L(k,1,l) >= nO) { foreign = 1; return; } \
    answer_range(L(k,1,l), L(k,2,l), p[l], nb*R); L(k,2,l) += nb*R; } } \
void N##x4(uint8_t *a, uint8_t *b, uint8_t *c, uint8_t *d, size_t on, const uint8_t *e, const uint8_t *f, const uint8_t *g, const uint8_t *h, size_t n) { \
  N(a, on, e, n); N(b, on, f, n); N(c, on, g, n); N(d, on, h, n); }
VARIANT4(shake128, 168)
VARIANT4(shake256, 136)
#endif
