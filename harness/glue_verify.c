/* verify.h of /repo behind plain names. */
#include <stddef.h>
#include <stdint.h>
#include "verify.h"
#define X __attribute__((visibility("default")))
X int g_verify(const uint8_t *a, const uint8_t *b, size_t n) { return verify(a, b, n); }
X void g_cmov(uint8_t *r, const uint8_t *x, size_t n, uint8_t b) { cmov(r, x, n, b); }
#ifdef GLUE_INT16
X void g_cmov16(int16_t *r, int16_t v, uint16_t b) { cmov_int16(r, v, b); }
#endif
