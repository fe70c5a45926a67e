/* Recording randomness source: serves bytes from a tape set by the harness. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include "paint.h"
#define EXPORT __attribute__((visibility("default")))
static const uint8_t *tape; static size_t tapelen, tapepos, ncalls, lens[4096], overrun;
EXPORT void rng_set(const uint8_t *t, size_t n) { tape = t; tapelen = n; tapepos = 0; ncalls = 0; overrun = 0; }
EXPORT size_t rng_pos(void) { return tapepos; }
EXPORT size_t rng_calls(void) { return ncalls; }
EXPORT size_t rng_len(size_t i) { return i < 4096 ? lens[i] : 0; }
EXPORT size_t rng_overrun(void) { return overrun; }
void randombytes(uint8_t *out, size_t n);
void randombytes(uint8_t *out, size_t n) {
  if (ncalls < 4096) lens[ncalls] = n;
  ncalls++;
  for (size_t i = 0; i < n; i++) { if (tapepos < tapelen) out[i] = tape[tapepos++]; else { out[i] = 0xEE; overrun++; } }
}
EXPORT void rng_paint(uint64_t c);
void rng_paint(uint64_t c) { paint(c); }
