/* Reads a lackey memory trace; summarises every window between the stores of 1 and 2 to the marker.
   usage: trc MARK ARENA ARENASIZE NARENA EXELO EXEHI [DUMPPREFIX w...]  (addresses hex, sizes decimal)
   line per window: w lines instrs loads stores hash | i:L|S:lo-hi,... per arena | X:lo-hi... stores to the image */
#include <inttypes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define MAXA 8
static uint8_t *bm[MAXA][2]; static uint8_t *im;
static void runs(const char *tag, const uint8_t *b, uint64_t n, uint64_t base) {
  int first = 1;
  for (uint64_t i = 0; i < n;) {
    if (!b[i]) { i++; continue; }
    uint64_t j = i; while (j < n && b[j]) j++;
    printf(first ? " %s%" PRIu64 "-%" PRIu64 : ",%s%" PRIu64 "-%" PRIu64, first ? tag : "", base + i, base + j); first = 0; i = j;
  }
}
int main(int argc, char **argv) {
  uint64_t mark = strtoull(argv[1], 0, 16), ar = strtoull(argv[2], 0, 16), as = strtoull(argv[3], 0, 10), na = strtoull(argv[4], 0, 10);
  uint64_t elo = strtoull(argv[5], 0, 16), ehi = strtoull(argv[6], 0, 16);
  const char *dump = argc > 7 ? argv[7] : 0; FILE *df = 0;
  for (uint64_t i = 0; i < na; i++) for (int j = 0; j < 2; j++) bm[i][j] = calloc(as, 1);
  im = calloc(ehi - elo, 1);
  static char buf[1 << 16]; static char out[1 << 16]; setvbuf(stdin, buf, _IOFBF, sizeof buf); setvbuf(stdout, out, _IOFBF, sizeof out);
  char l[256]; int in = 0; long w = 0; uint64_t n = 0, ni = 0, nl = 0, ns = 0, h = 0, foreign = 0;
  while (fgets(l, sizeof l, stdin)) {
    char t = l[0] == 'I' ? 'I' : l[1];
    if ((l[0] != 'I' && l[0] != ' ') || (t != 'I' && t != 'L' && t != 'S' && t != 'M')) continue;
    char *e; uint64_t a = strtoull(l + 3, &e, 16), s = *e == ',' ? strtoull(e + 1, 0, 10) : 0;
    if (a == mark && (t == 'S' || t == 'M')) {
      in = !in;
      if (in) {
        n = ni = nl = ns = foreign = 0; h = 1469598103934665603ull;
        for (uint64_t i = 0; i < na; i++) for (int j = 0; j < 2; j++) memset(bm[i][j], 0, as);
        memset(im, 0, ehi - elo);
        if (dump) for (int i = 8; i < argc; i++) if (atol(argv[i]) == w) { char p[512]; snprintf(p, sizeof p, "%s.%ld", dump, w); df = fopen(p, "w"); }
      } else {
        printf("%ld %" PRIu64 " %" PRIu64 " %" PRIu64 " %" PRIu64 " %016" PRIx64 " %" PRIu64, w, n, ni, nl, ns, h, foreign);
        for (uint64_t i = 0; i < na; i++) for (int j = 0; j < 2; j++) { char tag[8]; snprintf(tag, sizeof tag, "%" PRIu64 "%c:", i, j ? 'S' : 'L'); runs(tag, bm[i][j], as, 0); }
        runs("X:", im, ehi - elo, elo);
        printf("\n"); w++; if (df) { fclose(df); df = 0; }
      }
      continue;
    }
    if (!in) continue;
    n++; h = (h ^ (a * 4 + (t == 'I' ? 0 : t == 'L' ? 1 : t == 'S' ? 2 : 3))) * 1099511628211ull; h ^= h >> 29; h = (h ^ s) * 1099511628211ull;
    if (df) fputs(l, df);
    if (t == 'I') { ni++; continue; }
    if (t != 'S') nl++; if (t != 'L') ns++;
    uint64_t o = a - ar;
    if (a >= ar && o < as * na) {
      for (uint64_t b = o; b < o + s && b < as * na; b++) { if (t != 'S') bm[b / as][0][b % as] = 1; if (t != 'L') bm[b / as][1][b % as] = 1; }
    } else if (a >= elo && a < ehi) { if (t != 'L') for (uint64_t b = a; b < a + s && b < ehi; b++) im[b - elo] = 1; }
    else if (a < 0x1f00000000ull) foreign++;
  }
  return in;
}
