/* MLKEM.tla in C: the specification's functions, one by one, for runs too long for TLC.  Exact arithmetic
   modulo q, a sponge of its own (or the oracle's); nothing of /repo.  Its own calls are validated against the
   specification (KemTrace) by the checks that use it. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#define K KYBER_K
#define Q 3329
#define ETA1 (K == 2 ? 3 : 2)
#define DU (K == 4 ? 11 : 10)
#define DV (K == 4 ? 5 : 4)
#define X __attribute__((visibility("default")))
#define CAT_(k, n) pqcrystals_kyber##k##_model_##n
#define CAT(k, n) CAT_(k, n)
#if K == 2
#define F(n) CAT(512, n)
#elif K == 3
#define F(n) CAT(768, n)
#else
#define F(n) CAT(1024, n)
#endif
void randombytes(uint8_t *, size_t);
/* ---- hashing */
#ifdef ORACLE
void orc_query(uint8_t *, size_t, const uint8_t *, size_t, unsigned, uint8_t);
static void hash(uint8_t *o, size_t on, const uint8_t *in, size_t n, unsigned rate, uint8_t ds) { orc_query(o, on, in, n, rate, ds); }
size_t orc_open(const uint8_t *, size_t, unsigned, uint8_t); void orc_read(size_t, size_t, uint8_t *, size_t);
typedef struct { size_t id, off; } xof;
static void xof_start(xof *x, const uint8_t *in) { x->id = orc_open(in, 34, 168, 31); x->off = 0; }
static void xof_block(xof *x, uint8_t *o) { orc_read(x->id, x->off, o, 168); x->off += 168; }
#else
static uint64_t RC[24];
#define ROL(v, n) ((v) << (n) | (v) >> (64 - (n)))
static void f1600(uint64_t *a) {
  for (int r = 0; r < 24; r++) {
    uint64_t c[5], d[5], b[25]; int x, y;
    for (x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
    for (x = 0; x < 5; x++) d[x] = c[(x + 4) % 5] ^ ROL(c[(x + 1) % 5], 1);
#define S(x, y, n) b[y + 5 * ((2 * x + 3 * y) % 5)] = ROL(a[x + 5 * y] ^ d[x], n);
    b[0] = a[0] ^ d[0];
    S(1,0,1) S(2,0,62) S(3,0,28) S(4,0,27) S(0,1,36) S(1,1,44) S(2,1,6) S(3,1,55) S(4,1,20) S(0,2,3) S(1,2,10) S(2,2,43)
    S(3,2,25) S(4,2,39) S(0,3,41) S(1,3,45) S(2,3,15) S(3,3,21) S(4,3,8) S(0,4,18) S(1,4,2) S(2,4,61) S(3,4,56) S(4,4,14)
    for (y = 0; y < 25; y += 5) for (x = 0; x < 5; x++) a[x + y] = b[x + y] ^ (~b[(x + 1) % 5 + y] & b[(x + 2) % 5 + y]);
    a[0] ^= RC[r];
  }
}
static void absorb(uint64_t *a, const uint8_t *in, size_t n, unsigned rate, uint8_t ds) {
  uint8_t b[200]; memset(a, 0, 200);
  for (;;) {
    size_t m = n < rate ? n : rate; memset(b, 0, 200); memcpy(b, in, m);
    if (m < rate) { b[m] ^= ds; b[rate - 1] ^= 128; }
    for (unsigned i = 0; i < rate / 8; i++) { uint64_t w; memcpy(&w, b + 8 * i, 8); a[i] ^= w; }
    f1600(a); if (m < rate) return;
    in += m; n -= m;
  }
}
static void hash(uint8_t *o, size_t on, const uint8_t *in, size_t n, unsigned rate, uint8_t ds) {
  uint64_t a[25]; absorb(a, in, n, rate, ds);
  for (;;) { size_t m = on < rate ? on : rate; memcpy(o, a, m); o += m; on -= m; if (!on) return; f1600(a); }
}
typedef struct { uint64_t a[25]; int first; } xof;
static void xof_start(xof *x, const uint8_t *in) { absorb(x->a, in, 34, 168, 31); x->first = 1; }
static void xof_block(xof *x, uint8_t *o) { if (!x->first) f1600(x->a); x->first = 0; memcpy(o, x->a, 168); }
#endif
static void G(uint8_t *o, const uint8_t *in, size_t n) { hash(o, 64, in, n, 72, 6); }
static void H(uint8_t *o, const uint8_t *in, size_t n) { hash(o, 32, in, n, 136, 6); }
/* ---- the ring: coefficients 0..q-1 */
typedef struct { uint32_t c[256]; } poly;
static uint32_t ZETA[128], GAMMA[128];
static uint32_t power(uint32_t b, uint32_t e) { uint32_t r = 1; for (; e; e--) r = r * b % Q; return r; }
static uint32_t brv(uint32_t i) { uint32_t r = 0; for (int j = 0; j < 7; j++) r |= (i >> j & 1) << (6 - j); return r; }
__attribute__((constructor)) static void tables(void) {
  for (uint32_t i = 0; i < 128; i++) { ZETA[i] = power(17, brv(i)); GAMMA[i] = power(17, 2 * brv(i) + 1); }
#ifndef ORACLE
  uint32_t l = 1;                                  /* the LFSR x^8 + x^6 + x^5 + x^4 + 1 */
  for (int r = 0; r < 24; r++) for (int j = 0; j < 7; j++) { if (l & 1) RC[r] |= 1ULL << ((1 << j) - 1); l <<= 1; if (l & 256) l ^= 0x171; }
#endif
}
static void ntt(poly *f) {
  int i = 1;
  for (int len = 128; len >= 2; len /= 2) for (int s = 0; s < 256; s += 2 * len) {
    uint32_t z = ZETA[i++];
    for (int j = s; j < s + len; j++) { uint32_t t = z * f->c[j + len] % Q; f->c[j + len] = (f->c[j] + Q - t) % Q; f->c[j] = (f->c[j] + t) % Q; }
  }
}
static void invntt(poly *f) {
  int i = 127;
  for (int len = 2; len <= 128; len *= 2) for (int s = 0; s < 256; s += 2 * len) {
    uint32_t z = ZETA[i--];
    for (int j = s; j < s + len; j++) { uint32_t t = f->c[j]; f->c[j] = (t + f->c[j + len]) % Q; f->c[j + len] = z * (f->c[j + len] + Q - t) % Q; }
  }
  for (int j = 0; j < 256; j++) f->c[j] = f->c[j] * 3303 % Q;
}
static void addmul(poly *r, const poly *a, const poly *b) {
  for (int i = 0; i < 128; i++) {
    uint32_t a0 = a->c[2*i], a1 = a->c[2*i+1], b0 = b->c[2*i], b1 = b->c[2*i+1];
    r->c[2*i] = (r->c[2*i] + a0 * b0 + a1 * b1 % Q * GAMMA[i]) % Q; r->c[2*i+1] = (r->c[2*i+1] + a0 * b1 + a1 * b0) % Q;
  }
}
static void add(poly *r, const poly *a) { for (int i = 0; i < 256; i++) r->c[i] = (r->c[i] + a->c[i]) % Q; }
/* ---- bytes */
static void encode(uint8_t *o, const poly *p, int d) {
  uint64_t w = 0; int n = 0;
  for (int i = 0; i < 256; i++) { w |= (uint64_t)p->c[i] << n; for (n += d; n >= 8; n -= 8, w >>= 8) *o++ = (uint8_t)w; }
}
static void decode(poly *p, const uint8_t *in, int d) {
  uint64_t w = 0; int n = 0;
  for (int i = 0; i < 256; i++) { for (; n < d; n += 8) w |= (uint64_t)*in++ << n; p->c[i] = w & ((1u << d) - 1); w >>= d; n -= d; }
}
static void compress(poly *p, int d) { for (int i = 0; i < 256; i++) p->c[i] = ((2 * (p->c[i] << d) + Q) / (2 * Q)) & ((1u << d) - 1); }
static void decompress(poly *p, int d) { for (int i = 0; i < 256; i++) p->c[i] = (2 * Q * p->c[i] + (1u << d)) >> (d + 1); }
static void modq(poly *p) { for (int i = 0; i < 256; i++) p->c[i] %= Q; }
static void SampleNTT(poly *p, const uint8_t *rho, uint8_t i, uint8_t j) {
  uint8_t b[168], in[34]; xof x; int n = 0; memcpy(in, rho, 32); in[32] = i; in[33] = j; xof_start(&x, in);
  while (n < 256) {
    xof_block(&x, b);
    for (int t = 0; t < 168; t += 3) {
      uint32_t d1 = b[t] + 256 * (b[t+1] % 16), d2 = b[t+1] / 16 + 16 * b[t+2];
      if (d1 < Q && n < 256) p->c[n++] = d1;
      if (d2 < Q && n < 256) p->c[n++] = d2;
    }
  }
}
static void noise(poly *p, const uint8_t *key, uint8_t nonce, int eta) {
  uint8_t b[192], in[33]; memcpy(in, key, 32); in[32] = nonce; hash(b, 64 * eta, in, 33, 136, 31);
  poly t; decode(&t, b, 2 * eta > 4 ? 6 : 4);
  for (int i = 0; i < 256; i++) { uint32_t v = t.c[i]; p->c[i] = (Q + __builtin_popcount(v & ((1u << eta) - 1)) - __builtin_popcount(v >> eta)) % Q; }
}
/* ---- K-PKE */
static void pke_enc(uint8_t *ct, const uint8_t *pk, const uint8_t *m, const uint8_t *r) {
  poly y[K], t, a, u, v, e; int n = 0;
  for (int i = 0; i < K; i++) { noise(y + i, r, n++, ETA1); ntt(y + i); }
  for (int i = 0; i < K; i++) {
    memset(&u, 0, sizeof u);
    for (int j = 0; j < K; j++) { SampleNTT(&a, pk + 384 * K, i, j); addmul(&u, &a, y + j); }      /* A transposed: entry (j, i) is sampled from rho||i||j */
    invntt(&u); noise(&e, r, n++, 2); add(&u, &e); compress(&u, DU); encode(ct + 32 * DU * i, &u, DU);
  }
  memset(&v, 0, sizeof v);
  for (int j = 0; j < K; j++) { decode(&t, pk + 384 * j, 12); modq(&t); addmul(&v, &t, y + j); }
  invntt(&v); noise(&e, r, n++, 2); add(&v, &e); decode(&t, m, 1); decompress(&t, 1); add(&v, &t);
  compress(&v, DV); encode(ct + 32 * DU * K, &v, DV);
}
static void pke_dec(uint8_t *m, const uint8_t *ct, const uint8_t *sk) {
  poly w, u, s, v; memset(&w, 0, sizeof w);
  for (int i = 0; i < K; i++) { decode(&u, ct + 32 * DU * i, DU); decompress(&u, DU); ntt(&u); decode(&s, sk + 384 * i, 12); modq(&s); addmul(&w, &u, &s); }
  invntt(&w); decode(&v, ct + 32 * DU * K, DV); decompress(&v, DV);
  for (int i = 0; i < 256; i++) v.c[i] = (v.c[i] + Q - w.c[i]) % Q;
  compress(&v, 1); encode(m, &v, 1);
}
/* ---- ML-KEM */
enum { PKB = 384 * K + 32, SKB = 768 * K + 96, CTB = 32 * (DU * K + DV) };
X int F(keypair_derand)(uint8_t *pk, uint8_t *sk, const uint8_t *coins) {
  uint8_t g[64], in[33]; poly s[K], t, a; memcpy(in, coins, 32); in[32] = K; G(g, in, 33);
  for (int i = 0; i < K; i++) { noise(s + i, g + 32, i, ETA1); ntt(s + i); encode(sk + 384 * i, s + i, 12); }
  for (int i = 0; i < K; i++) {
    noise(&t, g + 32, K + i, ETA1); ntt(&t);
    for (int j = 0; j < K; j++) { SampleNTT(&a, g, j, i); addmul(&t, &a, s + j); }
    encode(pk + 384 * i, &t, 12);
  }
  memcpy(pk + 384 * K, g, 32); memcpy(sk + 384 * K, pk, PKB); H(sk + SKB - 64, pk, PKB); memcpy(sk + SKB - 32, coins + 32, 32); return 0;
}
X int F(enc_derand)(uint8_t *ct, uint8_t *ss, const uint8_t *pk, const uint8_t *m) {
  uint8_t b[64], g[64]; memcpy(b, m, 32); H(b + 32, pk, PKB); G(g, b, 64); pke_enc(ct, pk, m, g + 32); memcpy(ss, g, 32); return 0;
}
X int F(dec)(uint8_t *ss, const uint8_t *ct, const uint8_t *sk) {
  uint8_t b[64], g[64], c[CTB], j[32 + CTB]; pke_dec(b, ct, sk); memcpy(b + 32, sk + SKB - 64, 32); G(g, b, 64);
  memcpy(j, sk + SKB - 32, 32); memcpy(j + 32, ct, CTB); hash(ss, 32, j, 32 + CTB, 136, 31);
  pke_enc(c, sk + 384 * K, b, g + 32); if (!memcmp(c, ct, CTB)) memcpy(ss, g, 32);
  return 0;
}
X int F(keypair)(uint8_t *pk, uint8_t *sk) { uint8_t c[64]; randombytes(c, 64); return F(keypair_derand)(pk, sk, c); }
X int F(enc)(uint8_t *ct, uint8_t *ss, const uint8_t *pk) { uint8_t c[32]; randombytes(c, 32); return F(enc_derand)(ct, ss, pk, c); }
