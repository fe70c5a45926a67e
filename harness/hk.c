#include <string.h>
#include "hk.h"
#define ROL(v, n) ((v) << (n) | (v) >> (64 - (n)))
static uint64_t RC[24];
__attribute__((constructor)) static void rc(void) {
  unsigned R = 1;
  for (int r = 0; r < 24; r++) for (int j = 0; j < 7; j++) { if (R & 1) RC[r] |= 1ULL << ((1 << j) - 1); R <<= 1; if (R & 256) R ^= 0x171; }
}
static void f1600(uint64_t *A) {
  for (int r = 0; r < 24; r++) {
    uint64_t C[5], D[5], B[25];
    for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x+5] ^ A[x+10] ^ A[x+15] ^ A[x+20];
    for (int x = 0; x < 5; x++) D[x] = C[(x+4)%5] ^ ROL(C[(x+1)%5], 1);
#define S(x, y, n) B[y + 5*((2*x+3*y)%5)] = ROL(A[x+5*y] ^ D[x], n);
    B[0] = A[0] ^ D[0];
    S(1,0,1) S(2,0,62) S(3,0,28) S(4,0,27) S(0,1,36) S(1,1,44) S(2,1,6) S(3,1,55) S(4,1,20) S(0,2,3) S(1,2,10) S(2,2,43)
    S(3,2,25) S(4,2,39) S(0,3,41) S(1,3,45) S(2,3,15) S(3,3,21) S(4,3,8) S(0,4,18) S(1,4,2) S(2,4,61) S(3,4,56) S(4,4,14)
    for (int y = 0; y < 25; y += 5) for (int x = 0; x < 5; x++) A[x+y] = B[x+y] ^ (~B[(x+1)%5+y] & B[(x+2)%5+y]);
    A[0] ^= RC[r];
  }
}
void hk_sponge(uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen, unsigned rate, uint8_t ds) {
  uint64_t A[25] = {0}; uint8_t blk[200];
  for (;;) {
    size_t n = inlen < rate ? inlen : rate;
    memset(blk, 0, sizeof blk);
    if (n) memcpy(blk, in, n);
    if (n < rate) { blk[n] ^= ds; blk[rate-1] ^= 0x80; }
    for (unsigned i = 0; i < rate; i++) A[i/8] ^= (uint64_t)blk[i] << (8*(i%8));
    f1600(A);
    if (n < rate) break;
    in += n; inlen -= n;
  }
  for (;;) {
    size_t n = outlen < rate ? outlen : rate;
    for (size_t i = 0; i < n; i++) out[i] = (uint8_t)(A[i/8] >> (8*(i%8)));
    out += n; outlen -= n;
    if (!outlen) break;
    f1600(A);
  }
}
