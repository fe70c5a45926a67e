/* A stand-in for the KEM under the known-answer generator.  KATSCRIPT: "<seed> <record> <op> <ret> <byte>":
   at that record the operation (0 keypair, 1 enc, 2 dec) returns ret and, for dec, a secret that differs in <byte> (-1: none).
   Calls are logged to KATLOG. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "kem.h"
#include "nistkat/rng.h"
static FILE *lg; static unsigned long seed; static int frec, fop, fret, fbyte, rec = -1, ready; static uint64_t s;
static unsigned rnd(void) { s = s * 6364136223846793005ull + 1442695040888963407ull; return s >> 35; }
static void setup(void) { if (ready) return; ready = 1; lg = fopen(getenv("KATLOG"), "w"); sscanf(getenv("KATSCRIPT"), "%lu %d %d %d %d", &seed, &frec, &fop, &fret, &fbyte); s = seed; }
static void hex(const char *n, const unsigned char *b, size_t l) { size_t i; fprintf(lg, " %s=", n); for (i = 0; i < l; i++) fprintf(lg, "%02x", b[i]); }
static void fill(unsigned char *p, size_t n) { size_t i; unsigned m = rnd() % 6; for (i = 0; i < n; i++) p[i] = m == 0 ? 0 : m == 1 ? 255 : m == 2 ? (i + rnd() % 2) : rnd(); }
static void draws(int base) { unsigned char b[200]; int i, c = (seed & 1) ? 1 : rnd() % 3; for (i = 0; i < c; i++) { int n = (seed & 1) ? base : (int)(rnd() % 100); randombytes(b, n); hex("draw", b, n); } }
static unsigned char last[CRYPTO_BYTES];
int crypto_kem_keypair(unsigned char *pk, unsigned char *sk) {
  setup(); rec++; fprintf(lg, "keypair"); draws(64); fill(pk, CRYPTO_PUBLICKEYBYTES); fill(sk, CRYPTO_SECRETKEYBYTES);
  hex("pk", pk, CRYPTO_PUBLICKEYBYTES); hex("sk", sk, CRYPTO_SECRETKEYBYTES); int r = rec == frec && fop == 0 ? fret : 0; fprintf(lg, " ret=%d\n", r); fflush(lg); return r; }
int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk) {
  fprintf(lg, "enc"); draws(32); hex("pk", pk, CRYPTO_PUBLICKEYBYTES); fill(ct, CRYPTO_CIPHERTEXTBYTES); fill(ss, CRYPTO_BYTES); memcpy(last, ss, CRYPTO_BYTES);
  hex("ct", ct, CRYPTO_CIPHERTEXTBYTES); hex("ss", ss, CRYPTO_BYTES); int r = rec == frec && fop == 1 ? fret : 0; fprintf(lg, " ret=%d\n", r); fflush(lg); return r; }
int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned char *sk) {
  fprintf(lg, "dec"); memcpy(ss, last, CRYPTO_BYTES); if (rec == frec && fop == 2 && fbyte >= 0) ss[fbyte] ^= 1 << (rnd() & 7);
  hex("ct", ct, CRYPTO_CIPHERTEXTBYTES); hex("sk", sk, CRYPTO_SECRETKEYBYTES); hex("ss", ss, CRYPTO_BYTES);
  int r = rec == frec && fop == 2 ? fret : 0; fprintf(lg, " ret=%d\n", r); fflush(lg); return r; }
