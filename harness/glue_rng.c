/* rng.h of /repo behind plain names. */
#include <stddef.h>
#include "paint.h"
#include "rng.h"
#define X __attribute__((visibility("default")))
static uint64_t np;
#define Q paint(np++)
#define Q0 do { if (np++ % 256 == 0) paint(np); } while (0)
X void r_init(unsigned char *e, unsigned char *p, int s) { Q; randombytes_init(e, p, s); }
X int r_gen(unsigned char *x, unsigned long long n) { Q; return randombytes(x, n); }
X size_t r_xsize(void) { return sizeof(AES_XOF_struct); }
X int r_xinit(void *c, unsigned char *s, unsigned char *d, unsigned long m) { Q; return seedexpander_init(c, s, d, m); }
X int r_xget(void *c, unsigned char *x, unsigned long n) { Q; return seedexpander(c, x, n); }
X int r_gen0(unsigned char *x, unsigned long long n) { Q0; return randombytes(x, n); }
X int r_xget0(void *c, unsigned char *x, unsigned long n) { Q0; return seedexpander(c, x, n); }
X int r_codes(int i) { return i == 0 ? RNG_SUCCESS : i == 1 ? RNG_BAD_MAXLEN : i == 2 ? RNG_BAD_OUTBUF : RNG_BAD_REQ_LEN; }
