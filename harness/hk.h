/* Independent Keccak for the harness (never linked from /repo). */
#ifndef HK_H
#define HK_H
#include <stddef.h>
#include <stdint.h>
void hk_sponge(uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen, unsigned rate, uint8_t ds);
#endif
