/* Uniform entry points over the fips202 / fips202x4 headers of /repo. */
#include <stddef.h>
#include <stdint.h>
#include "paint.h"
#include "fips202.h"
#ifdef GLUE_X4
#include "fips202x4.h"
#endif
#define X __attribute__((visibility("default")))
static uint64_t np;
#define Q paint(np++)
X size_t g_state_size(void) { return sizeof(keccak_state); }
X void g_init(int v, void *s) { Q; if (v) shake256_init(s); else shake128_init(s); }
X void g_absorb(int v, void *s, const uint8_t *in, size_t n) { Q; if (v) shake256_absorb(s, in, n); else shake128_absorb(s, in, n); }
X void g_finalize(int v, void *s) { Q; if (v) shake256_finalize(s); else shake128_finalize(s); }
X void g_squeeze(int v, void *s, uint8_t *o, size_t n) { Q; if (v) shake256_squeeze(o, n, s); else shake128_squeeze(o, n, s); }
X void g_absorb_once(int v, void *s, const uint8_t *in, size_t n) { Q; if (v) shake256_absorb_once(s, in, n); else shake128_absorb_once(s, in, n); }
X void g_squeezeblocks(int v, void *s, uint8_t *o, size_t n) { Q; if (v) shake256_squeezeblocks(o, n, s); else shake128_squeezeblocks(o, n, s); }
X void g_shake(int v, uint8_t *o, size_t on, const uint8_t *in, size_t n) { Q; if (v) shake256(o, on, in, n); else shake128(o, on, in, n); }
X void g_sha3(int v, uint8_t *o, const uint8_t *in, size_t n) { Q; if (v) sha3_512(o, in, n); else sha3_256(o, in, n); }
#ifdef GLUE_X4
X size_t g_x4_size(void) { return sizeof(keccakx4_state); }
X void g_x4_absorb_once(int v, void *s, const uint8_t *a, const uint8_t *b, const uint8_t *c, const uint8_t *d, size_t n) {
  Q; if (v) shake256x4_absorb_once(s, a, b, c, d, n); else shake128x4_absorb_once(s, a, b, c, d, n); }
X void g_x4_squeezeblocks(int v, void *s, uint8_t *a, uint8_t *b, uint8_t *c, uint8_t *d, size_t n) {
  Q; if (v) shake256x4_squeezeblocks(a, b, c, d, n, s); else shake128x4_squeezeblocks(a, b, c, d, n, s); }
X void g_x4(int v, uint8_t *a, uint8_t *b, uint8_t *c, uint8_t *d, size_t on, const uint8_t *e, const uint8_t *f, const uint8_t *g, const uint8_t *h, size_t n) {
  Q; if (v) shake256x4(a, b, c, d, on, e, f, g, h, n); else shake128x4(a, b, c, d, on, e, f, g, h, n); }
#endif
