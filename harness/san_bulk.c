/* Bulk calls (bulk_drv.c) of one implementation over the oracle, in a program built with the address sanitizer.
   argv: result file, kind, seed, calls per batch, batches.  Digests are flushed batch by batch. */
#include <stdio.h>
#include "bulk_drv.c"
#define CAT_(a, b, c) pqcrystals_kyber##a##_##b##_##c
#define CAT(a, b, c) CAT_(a, b, c)
#define F(n) CAT(SET, IMPL, n)
int F(keypair_derand)(uint8_t *, uint8_t *, const uint8_t *);
int F(enc_derand)(uint8_t *, uint8_t *, const uint8_t *, const uint8_t *);
int F(dec)(uint8_t *, const uint8_t *, const uint8_t *);
#ifdef ORACLE
void orc_style(uint64_t); void orc_reset(void); int orc_foreign(void);
#else
#define orc_style 0
#define orc_reset 0
static int orc_foreign(void) { return 0; }
#endif
int main(int argc, char **argv) {
  struct lib l = {F(keypair_derand), F(enc_derand), F(dec), orc_style, orc_reset}; FILE *f = fopen(argv[1], "w"); static uint8_t diff[8200]; int32_t w = -1, st; uint32_t d; (void)argc;
  uint64_t seed = strtoull(argv[3], 0, 10); int per = atoi(argv[4]), n = atoi(argv[5]);
  for (int b = 0; b < n; b++) { bulk(&l, 1, KK, atoi(argv[2]), seed + b, 1, per, &d, &st, diff, &w); fprintf(f, "%u %d %d\n", d, st, orc_foreign()); fflush(f); }
  return 0;
}
