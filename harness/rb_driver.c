/* Calls randombytes with the operating system's answers scripted; one forked child
   per script, events as JSON lines.  stdin: "<seed> <nreq> <len>... <outcomes>" */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/types.h>
void randombytes(uint8_t *out, size_t outlen);
#define MAXEV 12000
#define MAXD 48
struct ev { int op, fd, res_neg, err, eq, clean, own; uint64_t off, n, res; uint8_t data[MAXD]; int nd; };
static struct { volatile int n, done; struct ev e[MAXEV]; } *sh;
static uint8_t *buf; static size_t need, got; static const char *script; static uint64_t rs; static uint8_t *shadow; static int stored;
static int fdbase = -1, fds[64], nfds; static int errs[] = {EIO, EFAULT, ENOSYS, EAGAIN, EINVAL, ENOMEM, EMFILE, ENFILE, EPERM, EBADF};
enum { REQ, OPEN, GET, CLOSE, RET };
static uint32_t rnd(void) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return rs >> 33; }
static struct ev *ev(int op) { static struct ev dummy; if (sh->n >= MAXEV) { int i; for (i = MAXEV - 1000; i < MAXEV; i++) if (sh->e[i].op == GET && !sh->e[i].res_neg && sh->e[i].res > 0) _exit(78); _exit(77); } struct ev *e = &sh->e[sh->n]; (void)dummy; memset(e, 0, sizeof *e); e->op = op; sh->n++; return e; }
static char next(void) { if (*script && *script != '\n') return *script++; return 'F'; }
static ssize_t deliver(int fd, void *p, uint64_t n, int whole) {
  struct ev *e = ev(GET); char c = next(); uint64_t r = n; size_t i;
  e->fd = fd; e->off = (uint8_t *)p - buf; e->n = n;
  e->own = (uint8_t *)p >= buf && (uint8_t *)p <= buf + need;
  if (!e->own && !stored) _exit(78);          /* a huge request served through memory of its own: not performed */
  if (c == 'I' && !whole) { e->res_neg = 1; e->err = EINTR; errno = EINTR; return -1; }
  if (c == 'E') { e->res_neg = 1; e->err = errs[rnd() % 10]; errno = e->err; return -1; }
  if (!whole) {
    if (c == '1') r = n ? 1 : 0;
    else if (c == 'H') r = (n + 1) / 2;
    else if (c == 'M') r = n > 1 ? n - 1 : n;
    else if (c == 'B') r = n > 33554431 ? 33554431 : n;
    else if (c == 'T') r = n > 0x80000005u ? 0x80000005u : n;
  }
  e->res = r;
  if (stored) {
    for (i = 0; i < r; i++) { uint8_t b = rnd(); ((uint8_t *)p)[i] = b; if (got + i < need) shadow[got + i] = b; if (i < MAXD) e->data[i] = b; }
    e->nd = r > MAXD ? MAXD : (int)r;          /* the first bytes suffice: longer results are compared whole (eq) */
  } else e->nd = -1;
  got += r;
  errno = c == 'F' ? 0 : (rnd() & 1) ? EINTR : EIO;          /* errno means nothing after success */
  return (ssize_t)r;
}
static int doopen(void) {
  struct ev *e = ev(OPEN); char c = next();
  if (c == 'I') { e->res_neg = 1; e->err = EINTR; errno = EINTR; return -1; }
  if (c == 'E') { e->res_neg = 1; e->err = errs[rnd() % 10]; errno = e->err; return -1; }
  e->res = e->fd = dup(fdbase); errno = (rnd() & 1) ? EINTR : EIO;
  if (nfds < 64) fds[nfds++] = e->fd;
  return e->fd;
}
#ifndef RB_WIN
long syscall(long nr, ...) {
  va_list ap; long a, b, c, d; va_start(ap, nr); a = va_arg(ap, long); b = va_arg(ap, long); c = va_arg(ap, long); d = va_arg(ap, long); va_end(ap);
  (void)d; (void)c;
  if (nr == 318) return deliver(-1, (void *)a, (uint64_t)b, 0);     /* SYS_getrandom, x86-64 */
  if (nr == 257 || nr == 2) return doopen();
  if (nr == 0) return deliver((int)a, (void *)b, (uint64_t)c, 0);
  errno = ENOSYS; return -1;
}
ssize_t getrandom(void *p, size_t n, unsigned f) { (void)f; return deliver(-1, p, n, 0); }
int getentropy(void *p, size_t n) { return deliver(-1, p, n, 1) < 0 ? -1 : 0; }
int open(const char *f, int fl, ...) { (void)f; (void)fl; return doopen(); }
int open64(const char *f, int fl, ...) { (void)f; (void)fl; return doopen(); }
int openat(int d, const char *f, int fl, ...) { (void)d; (void)f; (void)fl; return doopen(); }
ssize_t read(int fd, void *p, size_t n) { return deliver(fd, p, n, 0); }
int close(int fd) { struct ev *e = ev(CLOSE); e->fd = fd; return 0; }
#else
#include "wincrypt.h"
DWORD GetLastError(void) { return 5; }
BOOL CryptAcquireContextA(HCRYPTPROV *h, LPCSTR c, LPCSTR p, DWORD t, DWORD f) {
  struct ev *e; char o = next(); (void)c; (void)p; (void)t; (void)f; e = ev(OPEN);
  if (o == 'E' || o == 'I') { e->res_neg = 1; e->err = EIO; *h = 0; return 0; }
  e->res = e->fd = 100 + nfds++; *h = (HCRYPTPROV)e->fd; return 1;
}
BOOL CryptGenRandom(HCRYPTPROV h, DWORD n, BYTE *b) { return deliver((int)h, b, n, 1) < 0 ? 0 : 1; }
BOOL CryptReleaseContext(HCRYPTPROV h, DWORD f) { char o = next(); struct ev *e = ev(CLOSE); (void)f; e->fd = (int)h; if (o == 'E') { e->res_neg = 1; e->err = EIO; return 0; } return 1; }
#endif
static void pair(const char *k, uint64_t v) { printf(",\"%s\":[%llu,%llu]", k, (unsigned long long)(v >> 24), (unsigned long long)(v & 0xffffff)); }
static void show(struct ev *e) {
  static const char *nm[] = {"req", "open", "get", "close", "ret"}; int i;
  printf("{\"op\":\"%s\",\"fd\":%d,\"neg\":%d,\"err\":\"%s\",\"eq\":%d,\"clean\":%d,\"own\":%d", nm[e->op], e->fd, e->res_neg, !e->res_neg ? "" : e->err == EINTR ? "EINTR" : "EPERM", e->eq, e->clean, e->own);
  pair("off", e->off); pair("n", e->n); pair("res", e->res); printf(",\"nd\":%d,\"data\":[", e->nd < 0 ? -1 : e->nd);
  for (i = 0; i < e->nd; i++) printf("%s%d", i ? "," : "", e->data[i]);
  puts("]}");
}
int main(void) {
  static char line[65536]; sh = mmap(0, sizeof *sh, 3, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  fdbase = fileno(fopen("/dev/null", "r")); shadow = malloc(4 << 20); setvbuf(stdout, 0, _IOFBF, 1 << 20);
  while (fgets(line, sizeof line, stdin)) {
    char *p = line; uint64_t seed = strtoull(p, &p, 10); int nreq = strtol(p, &p, 10), i, st; uint64_t len[16];
    for (i = 0; i < nreq; i++) len[i] = strtoull(p, &p, 10);
    while (*p == ' ') p++;
    script = p; rs = seed; sh->n = 0; sh->done = 0; fflush(stdout);
    pid_t c = fork();
    if (!c) {
      alarm(20); signal(SIGABRT, SIG_DFL); fclose(stderr); if (rnd() & 1) fclose(stdin);          /* descriptor 0 is free: the device may get it */
      for (i = 0; i < nreq; i++) {
        uint8_t *m; size_t pages, room; struct ev *e; size_t j;
        need = len[i]; got = 0; stored = need <= (3u << 20);
        if (stored) {
          pages = need / 4096 + 2; m = (uint8_t *)mmap(0, (pages + 2) * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) + 4096;
          mprotect(m, pages * 4096, 3); memset(m, 0xA5, pages * 4096); room = pages * 4096;
          buf = (rnd() & 1) ? m + room - need : m + rnd() % 64;
        } else { m = mmap(0, need + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); buf = m; room = 0; }
        e = ev(REQ); e->n = need; errno = (rnd() & 1) ? EINTR : 0;
        randombytes(buf, need);
        e = ev(RET); e->n = need; e->eq = 1; e->clean = 1; e->nd = -1;
        if (stored) {
          e->eq = got >= need && !memcmp(buf, shadow, need);
          for (j = 0; j < room; j++) if ((m + j < buf || m + j >= buf + need) && m[j] != 0xA5) e->clean = 0;
          e->nd = need > MAXD ? -1 : (int)need; memcpy(e->data, buf, need > MAXD ? MAXD : need);
        }
      }
      sh->done = 1; _exit(0);
    }
    waitpid(c, &st, 0);
    puts("{\"op\":\"new\"}");
    for (i = 0; i < sh->n; i++) show(&sh->e[i]);
    if (!sh->done) {
      int s = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
      const char *how = s == SIGSEGV || s == SIGBUS ? "crash" : s == SIGALRM || s == SIGKILL ? "hang" : (WIFEXITED(st) && WEXITSTATUS(st) == 77) ? "hang" : (WIFEXITED(st) && WEXITSTATUS(st) == 78) ? "skip" : (WIFEXITED(st) && WEXITSTATUS(st) == 0) ? "exit0" : "stop";
      printf("{\"op\":\"%s\"}\n", how);
    }
  }
  return 0;
}
