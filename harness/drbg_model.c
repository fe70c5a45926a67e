/* CTR_DRBG and the seed expander (Drbg.tla, KatRng.tla) in C over the stand-in cipher of stub_evp.c, next to the code
   under test in histories of millions of requests.  What is equal is decided outside (PureTrace). */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
typedef struct { uint64_t k[4]; } key;
static uint64_t s[2];
static uint64_t rnd(void) { uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5); return s[1] + b; }
static uint64_t fnv(uint64_t h, const uint8_t *p, size_t n) { for (; n; n--) h = (h ^ *p++) * 0x100000001b3ULL; return h; }
static void E(const uint8_t *kk, const uint8_t *i, uint8_t *o) {
  uint64_t a, b, k[4]; memcpy(&a, i, 8); memcpy(&b, i + 8, 8); memcpy(k, kk, 32);
  a = (a ^ k[0]) * 0x9E3779B97F4A7C15ull + k[2]; b = (b + k[1]) * 0xC2B2AE3D27D4EB4Full ^ (a >> 29) ^ k[3]; a += b >> 31;
  memcpy(o, &a, 8); memcpy(o + 8, &b, 8);
}
static uint8_t K[32], V[16];
static void inc(uint8_t *v, int from) { for (int j = 15; j >= from && ++v[j] == 0; j--) ; }
static void update(const uint8_t *d) {
  uint8_t t[48]; for (int i = 0; i < 3; i++) { inc(V, 0); E(K, V, t + 16 * i); }
  if (d) for (int i = 0; i < 48; i++) t[i] ^= d[i];
  memcpy(K, t, 32); memcpy(V, t + 32, 16);
}
static void gen(uint8_t *o, size_t n) {
  uint8_t b[16]; for (size_t i = 0; i < n; i += 16) { inc(V, 0); E(K, V, b); memcpy(o + i, b, n - i < 16 ? n - i : 16); }
  update(0);
}
static size_t size(void) { uint64_t r = rnd(); return (r & 7) == 0 ? (r >> 8) % 100 : (r & 7) == 1 ? 0 : (r & 7) < 4 ? 48 : (r & 7) < 6 ? 1 + (r >> 8) % 17 : 32; }
/* one instance, n requests: digests of what either returned, batch by batch */
long marathon(void (*init)(unsigned char *, unsigned char *, int), int (*get)(unsigned char *, unsigned long long), uint64_t seed, long batches, int per, uint32_t *code, uint32_t *model, int32_t *st, uint8_t *entropy) {
  uint8_t e[48], a[128], b[128]; s[0] = seed * 0x9E3779B97F4A7C15ULL + 1; s[1] = seed ^ 0xD1B54A32D192ED03ULL; for (int i = 0; i < 20; i++) rnd();
  for (int i = 0; i < 48; i++) entropy[i] = e[i] = (uint8_t)(rnd() >> 9);
  memset(K, 0, 32); memset(V, 0, 16); update(e); init(e, 0, 256);
  for (long j = 0; j < batches; j++) {
    uint64_t x = 1, y = 1; st[j] = 0;
    for (int i = 0; i < per; i++) { size_t n = size(); memset(a, 0xA5, 128); memset(b, 0xA5, 128); st[j] |= get(a, n); gen(b, n); x = fnv(x, a, n + 1); y = fnv(y, b, n + 1); }
    code[j] = (uint32_t)(x ^ x >> 32) & 0x3fffffff; model[j] = (uint32_t)(y ^ y >> 32) & 0x3fffffff;
  }
  return batches;
}
/* one stream, n requests */
long xmarathon(int (*init)(void *, unsigned char *, unsigned char *, unsigned long), int (*get)(void *, unsigned char *, unsigned long), size_t size_of, uint64_t seed, long batches, int per, uint32_t *code, uint32_t *model, int32_t *st) {
  uint8_t key[32], c[16], d[8], o[16], a[128], b[128], *x = aligned_alloc(64, (size_of + 63) / 64 * 64); int p = 16;
  s[0] = seed * 0x9E3779B97F4A7C15ULL + 1; s[1] = seed ^ 0xD1B54A32D192ED03ULL; for (int i = 0; i < 20; i++) rnd();
  for (int i = 0; i < 32; i++) key[i] = (uint8_t)(rnd() >> 9);
  for (int i = 0; i < 8; i++) d[i] = (uint8_t)(rnd() >> 9);
  unsigned long m = 0xffffffffu - rnd() % 1000; memcpy(c, d, 8); for (int i = 0; i < 4; i++) c[8 + i] = (uint8_t)(m >> (24 - 8 * i)); memset(c + 12, 0, 4);
  st[0] = init(x, key, d, m);
  for (long j = 0; j < batches; j++) {
    uint64_t h = 1, g = 1; if (j) st[j] = 0;
    for (int i = 0; i < per; i++) {
      size_t n = size(); memset(a, 0xA5, 128); memset(b, 0xA5, 128); st[j] |= get(x, a, n);
      for (size_t t = 0; t < n; t++) { if (p == 16) { E(key, c, o); inc(c, 12); p = 0; } b[t] = o[p++]; }
      h = fnv(h, a, n + 1); g = fnv(g, b, n + 1);
    }
    code[j] = (uint32_t)(h ^ h >> 32) & 0x3fffffff; model[j] = (uint32_t)(g ^ g >> 32) & 0x3fffffff;
  }
  free(x); return batches;
}
/* the model alone, for its own validation: the outputs of requests of the given sizes */
void m_init(const uint8_t *e) { memset(K, 0, 32); memset(V, 0, 16); update(e); }
void m_gen(uint8_t *o, size_t n) { gen(o, n); }
