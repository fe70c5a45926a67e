/* The same calls by several libraries, many of them: inputs of every structure the generator knows, results
   digested batch by batch and library by library.  What is equal is decided outside (PureTrace). */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "paint.h"
struct lib { int (*kp)(uint8_t *, uint8_t *, const uint8_t *), (*enc)(uint8_t *, uint8_t *, const uint8_t *, const uint8_t *), (*dec)(uint8_t *, const uint8_t *, const uint8_t *); void (*style)(uint64_t), (*reset)(void); };
static uint64_t s[2];
static uint64_t rnd(void) { uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5); return s[1] + b; }
static uint32_t below(uint32_t n) { return (uint32_t)((rnd() >> 32) * n >> 32); }
static void raw(uint8_t *p, size_t n) { for (size_t i = 0; i < n; i += 8) { uint64_t w = rnd(); memcpy(p + i, &w, n - i < 8 ? n - i : 8); } }
static const uint8_t small[8] = {0, 1, 0x7f, 0x80, 0xff, 0xf0, 0x0f, 0x55};
static void fill(uint8_t *p, size_t n) {
  uint32_t c = below(16), i, l, o;
  if (c == 11) { p[below(n)] ^= 1 << below(8); return; }              /* related to what was there */
  raw(p, n);
  switch (c) {
    case 0: memset(p, small[below(8)], n); break;
    case 1: l = 1u << below(6); if (l > n) l = n; o = below(2) ? below((uint32_t)(n / l)) * l : below((uint32_t)(n - l + 1)); memset(p + o, below(2) ? 0 : 255, l); break;
    case 2: memset(p, 0, n); for (i = below(4) + 1; i; i--) p[below(n)] = (uint8_t)rnd(); break;
    case 3: o = below(256); l = below(5) * 2 - 3; for (i = 0; i < n; i++) p[i] = (uint8_t)(o + i * l); break;
    case 4: memcpy(p + (n + 1) / 2, p, n / 2); break;
    case 5: for (i = 0; i < n; i++) p[i] = small[p[i] & 7]; break;
    case 6: l = 1u << below(6); for (i = l; i < n; i++) p[i] = p[i - l]; break;
    case 7: memset(p, 255, n); p[below(n)] ^= 1 << below(8); break;
    case 8: for (i = 0; i < n; i++) if (rnd() & 1) p[i] = 0; break;
  }
}
static void vec(uint8_t *p, int k) {
  static const uint16_t edge[16] = {0, 1, 2, 1664, 1665, 2047, 2048, 3327, 3328, 3329, 3330, 3840, 4094, 4095, 255, 256};
  for (; k; k--, p += 384) {
    uint32_t c = below(6), a = edge[below(16)], b = edge[below(16)], t = c < 2 ? 3329 : 4096;
    for (int i = 0; i < 128; i++) {
      uint32_t x = c < 3 ? below(t) : c == 3 ? edge[below(16)] : a, y = c < 3 ? below(t) : c == 3 ? edge[below(16)] : b;
      p[3 * i] = x; p[3 * i + 1] = x >> 8 | y << 4; p[3 * i + 2] = y >> 4;
    }
  }
}
static void mutate(uint8_t *c, size_t n) {
  uint32_t i, j, d = 1 + below(255), l; uint8_t t;
  switch (below(11)) {
    case 0: c[below(n)] ^= 1 << below(8); break;
    case 1: c[below(n)] ^= d; break;
    case 2: i = below(n); j = below(n); c[i] ^= d; if (i != j) c[j] ^= d; break;
    case 3: i = below(n); l = 1u << below(8); c[i] ^= d; if (i + l < n) c[i + l] ^= d; break;
    case 4: i = below(n); j = below(n); c[i] += d; if (i != j) c[j] -= d; break;
    case 5: i = below(n); l = below(40) + 1; for (; l && i < n; l--, i++) c[i] = (uint8_t)rnd(); break;
    case 6: i = below(n); l = 1u << below(8); for (; l && i < n; l--, i++) c[i] = 0; break;
    case 7: fill(c, n); break;
    case 8: i = below(n); j = below(n); t = c[i]; c[i] = c[j]; c[j] = t; break;
    case 9: for (i = below(5) + 1; i; i--) c[below(n)] ^= 1 << below(8); break;
    case 10: for (i = 0; i < n; i++) c[i] ^= d; break;
  }
}
static uint64_t fnv(uint64_t h, const uint8_t *p, size_t n) { for (; n >= 8; n -= 8, p += 8) { uint64_t w; memcpy(&w, p, 8); h = (h ^ w) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; } for (; n; n--) h = (h ^ *p++) * 0x100000001b3ULL; return h; }
/* kinds: 0 key generation, 1 encapsulation, 2 decapsulation, 3 any.  dig: [batches][nl]; diff: first call the libraries do not agree on. */
long bulk(const struct lib *L, int nl, int k, int kind, uint64_t seed, long batches, int per, uint32_t *dig, int32_t *st, uint8_t *diff, int32_t *what) {
  size_t PK = 384 * k + 32, SK = 768 * k + 96, CT = k == 4 ? 1568 : 320 * k + 128;
  static uint8_t coins[64], m[32], pk[1600], hpk[1600], sk[3200], hsk[3200], ct[1600], hct[1600], o1[3200], o2[3200], f1[3200], f2[3200], tmp[64];
  memset(coins, 0, 64); memset(m, 0, 32); memset(pk, 0, 1600); memset(hpk, 0, 1600); memset(sk, 0, 3200); memset(hsk, 0, 3200); memset(ct, 0, 1600); memset(hct, 0, 1600);
  s[0] = seed * 0x9E3779B97F4A7C15ULL + 1; s[1] = seed ^ 0xD1B54A32D192ED03ULL; for (int i = 0; i < 20; i++) rnd();
  for (long b = 0; b < batches; b++) {
    uint64_t h[8]; for (int l = 0; l < nl; l++) h[l] = 1;
    st[b] = 0;
    for (int c = 0; c < per; c++) {
      int op = kind == 3 ? (int)below(3) : kind; uint64_t sty = rnd();
      if (c % 16 == 0 && op) {
        fill(coins, 64); if (L->style) { L->style(rnd()); L->reset(); }
        (L + below(nl))->kp(hpk, hsk, coins); memcpy(pk, hpk, PK); memcpy(sk, hsk, SK);
        if (op == 1 && c % 32) { vec(pk, k); if (below(2)) fill(pk + PK - 32, 32); }
        if (op == 2 && below(2)) {
          uint32_t x = below(32);
          if (x & 1) vec(sk, k);
          if (x & 2) { vec(sk + 384 * k, k); if (below(2)) fill(sk + SK - 96, 32); }
          if (x & 4) fill(sk + SK - 64, 32);
          if (x & 8) fill(sk + SK - 32, 32);
        }
      }
      if (op == 0) fill(coins, 64);
      if (op == 1) fill(m, 32);
      if (op == 2) {
        fill(m, 32); if (L->style) { L->style(sty); L->reset(); }
        (L + below(nl))->enc(hct, tmp, below(4) ? hpk : sk + 384 * k, m); memcpy(ct, hct, CT); if (below(2)) mutate(ct, CT);
      }
      for (int l = 0; l < nl; l++) {
        size_t n1 = op == 0 ? PK : op == 1 ? CT : 32, n2 = op == 0 ? SK : op == 1 ? 32 : 0; int r;
        memset(o1, 0xA5, n1); memset(o2, 0xA5, n2 + 1); if (L[l].style) { L[l].style(sty); L[l].reset(); }
        paint(c + l);
        r = op == 0 ? L[l].kp(o1, o2, coins) : op == 1 ? L[l].enc(o1, o2, pk, m) : L[l].dec(o1, ct, sk);
        st[b] |= r; h[l] = fnv(fnv(h[l], o1, n1), o2, n2);
        if (!l) { memcpy(f1, o1, n1); memcpy(f2, o2, n2); }
        else if (*what < 0 && (memcmp(f1, o1, n1) || memcmp(f2, o2, n2) || r)) {
          *what = op; uint8_t *q = diff;
          if (op == 0) memcpy(q, coins, 64); else if (op == 1) { memcpy(q, pk, PK); memcpy(q + PK, m, 32); } else { memcpy(q, ct, CT); memcpy(q + CT, sk, SK); }
          memcpy(diff + 8192, &sty, 8);
        }
      }
    }
    for (int l = 0; l < nl; l++) dig[b * nl + l] = (uint32_t)(h[l] ^ h[l] >> 32) & 0x3fffffff;
  }
  return batches;
}
/* n sessions: key pair, encapsulation, decapsulation, each by any of the libraries; eq[i]: 1 if the secrets agree */
long sessions(const struct lib *L, int nl, int k, uint64_t seed, long n, uint32_t *a, uint32_t *b, int32_t *st) {
  static uint8_t coins[64], m[32], pk[1568], sk[3168], ct[1568], s1[32], s2[32]; (void)k;
  s[0] = seed * 0x9E3779B97F4A7C15ULL + 1; s[1] = seed ^ 0xD1B54A32D192ED03ULL; for (int i = 0; i < 20; i++) rnd();
  for (long i = 0; i < n; i++) {
    uint64_t sty = rnd(); fill(m, 32); if (i % 4 == 0) fill(coins, 64);
    const struct lib *A = L + below(nl), *B = L + below(nl), *D = L + below(nl); uint64_t x, y;
    if (A->style) { A->style(sty); A->reset(); B->style(sty); B->reset(); D->style(sty); D->reset(); }
    paint(i);
    st[i] = A->kp(pk, sk, coins); st[i] |= B->enc(ct, s1, pk, m); paint(i + 7); st[i] |= D->dec(s2, ct, sk);
    x = fnv(1, s1, 32); y = fnv(1, s2, 32); a[i] = (uint32_t)(x ^ x >> 32) & 0x3fffffff; b[i] = (uint32_t)(y ^ y >> 32) & 0x3fffffff;
  }
  return n;
}
/* Histories of randomised calls on one tape of structured coins, then the deterministic calls on the pieces of the tape
   those must have drawn.  Per history: counts of key generations and encapsulations, the position after either pass, digests. */
struct rlib { struct lib d; int (*kpr)(uint8_t *, uint8_t *), (*encr)(uint8_t *, uint8_t *, const uint8_t *); void (*set)(const uint8_t *, size_t); size_t (*pos)(void), (*over)(void); };
long draws(const struct rlib *L, int k, uint64_t seed, long n, int per, int32_t *cnt, int32_t *pos, uint32_t *dig, int32_t *st) {
  size_t PK = 384 * k + 32, SK = 768 * k + 96, CT = k == 4 ? 1568 : 320 * k + 128;
  static uint8_t tape[64 * 300], op[256], pk[1568], sk[3168], ct[1568], ss[32];
  s[0] = seed * 0x9E3779B97F4A7C15ULL + 1; s[1] = seed ^ 0xD1B54A32D192ED03ULL; for (int i = 0; i < 20; i++) rnd();
  for (long b = 0; b < n; b++) {
    uint64_t sty = rnd(); size_t len = 64 * (size_t)per + 64;
    for (size_t i = 0; i < len; i += 32) {
      uint32_t c = below(12);
      if (c == 0 && i) memcpy(tape + i, tape + i - 32, 32); else if (c == 1 && i >= 64) memcpy(tape + i, tape + i - 64, 32);
      else { raw(tape + i, 32); fill(tape + i, 32); if (c == 2 && i) memcpy(tape + i, tape + i - 32, 1u << below(5)); }
    }
    cnt[2 * b] = cnt[2 * b + 1] = 0; st[b] = 0;
    for (int i = 0; i < per; i++) { op[i] = i ? (uint8_t)below(4) : 0; cnt[2 * b] += op[i] == 0; cnt[2 * b + 1] += op[i] == 1 || op[i] == 2; }
    for (int pass = 0; pass < 2; pass++) {
      uint64_t h = 1; const uint8_t *t = tape; memset(pk, 0, 1568); memset(sk, 0, 3168); memset(ct, 0, 1568); memset(ss, 0, 32);
      if (L->d.style) { L->d.style(sty); L->d.reset(); }
      L->set(tape, len);
      for (int i = 0; i < per; i++) {
        paint(i + pass);
        if (L->d.reset && i % 8 == 7) L->d.reset();
        if (op[i] == 0) { st[b] |= pass ? L->d.kp(pk, sk, t) : L->kpr(pk, sk); t += 64; h = fnv(fnv(h, pk, PK), sk, SK); }
        else if (op[i] < 3) { st[b] |= pass ? L->d.enc(ct, ss, pk, t) : L->encr(ct, ss, pk); t += 32; h = fnv(fnv(h, ct, CT), ss, 32); }
        else { ct[i % CT] ^= i & 1; st[b] |= L->d.dec(ss, ct, sk); h = fnv(h, ss, 32); }
      }
      pos[2 * b + pass] = (int32_t)(L->pos() + (L->over() ? 1u << 30 : 0)); dig[2 * b + pass] = (uint32_t)(h ^ h >> 32) & 0x3fffffff;
    }
  }
  return n;
}
