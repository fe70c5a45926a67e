/* rng.c under the address sanitizer: record: kind, entropy/seed 48 bytes, personalisation flag + 48 bytes,
   maximal length, number of requests, requests; every request has a buffer of exactly its size. */
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "rng.h"
static const uint8_t *p, *end;
static uint32_t u32(void) { uint32_t v; memcpy(&v, p, 4); p += 4; return v; }
static uint8_t *copy_(const uint8_t *x, size_t n) { uint8_t *d = malloc(n); memcpy(d, x, n); return d; }
int main(int argc, char **argv) {
  int fd = open(argv[1], O_RDONLY), o = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0600); long n = lseek(fd, 0, SEEK_END), r, t = 0;
  uint8_t *job = malloc(n); lseek(fd, 0, SEEK_SET); while ((r = read(fd, job + t, n - t)) > 0) t += r;
  p = job; end = job + n; (void)argc;
  while (p < end) {
    uint32_t kind = u32(), i, nr, pf, max; uint8_t *e = copy_(p, 48), *q; AES_XOF_struct *x = malloc(sizeof *x); p += 48;
    pf = u32(); q = copy_(p, 48); p += 48; max = u32(); nr = u32();
    if (kind == 0) randombytes_init(e, pf ? q : 0, 256);
    else { uint8_t *s = copy_(e, 32), *d = copy_(q, 8); memset(x, 0xA5, sizeof *x); r = seedexpander_init(x, s, d, max); if (write(o, &r, 4) != 4) return 3; free(s); free(d); }
    free(e); free(q);
    for (i = 0; i < nr; i++) {
      uint32_t l = u32(); uint8_t *b = malloc(l); if (l) memset(b, 0xA5, l);
      r = kind == 0 ? randombytes(b, l) : seedexpander(x, b, l);
      if (write(o, &r, 4) != 4 || (l && write(o, b, l) != (long)l)) return 3;
      free(b);
    }
    free(x);
  }
  return 0;
}
