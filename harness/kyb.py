"""ctypes access to the libraries of build.py, with guard-page buffers."""
import ctypes as C, mmap, os
import build
PAGE = mmap.PAGESIZE
libc = C.CDLL(None, use_errno=True)
libc.mmap.restype = C.c_void_p
libc.mmap.argtypes = [C.c_void_p, C.c_size_t, C.c_int, C.c_int, C.c_int, C.c_long]
libc.mprotect.argtypes = [C.c_void_p, C.c_size_t, C.c_int]
libc.munmap.argtypes = [C.c_void_p, C.c_size_t]
PK = {2: 800, 3: 1184, 4: 1568}
SK = {2: 1632, 3: 2400, 4: 3168}
CT = {2: 768, 3: 1088, 4: 1568}
NAME = {2: 512, 3: 768, 4: 1024}

def accepted(o):
    n = 0
    for t in range(0, len(o) - 2, 3):
        n += ((o[t] | (o[t+1] & 15) << 8) < 3329) + ((o[t+1] >> 4 | o[t+2] << 4) < 3329)
    return n

class Guard:
    """n usable bytes between inaccessible pages.  side 'end': the last byte is
    the last of its page (minus shift); 'start': the first byte is the first of
    its page (plus shift).  The rest of the mapped pages is a canary."""
    CAN = 0xA5
    def __init__(self, n, side="end", shift=0):
        self.n = n
        self.pages = (n + shift + PAGE - 1) // PAGE or 1
        self.base = libc.mmap(None, (self.pages + 2) * PAGE, 0, 0x22, -1, 0)
        assert self.base not in (None, C.c_void_p(-1).value)
        lo = self.base + PAGE
        assert libc.mprotect(lo, self.pages * PAGE, 3) == 0
        self.lo, self.hi = lo, lo + self.pages * PAGE
        self.addr = self.hi - n - shift if side == "end" else lo + shift
        self.pre, self.post = self.addr - lo, self.hi - self.addr - n
        self.poison()
    def poison(self, fill=None):
        C.memset(self.lo, self.CAN, self.hi - self.lo)
    def set(self, b):
        assert len(b) == self.n
        C.memmove(self.addr, bytes(b), self.n)
    def get(self):
        return C.string_at(self.addr, self.n)
    def canary_ok(self):
        return (C.string_at(self.lo, self.pre) == bytes([self.CAN]) * self.pre and
                C.string_at(self.addr + self.n, self.post) == bytes([self.CAN]) * self.post)
    def readonly(self, ro=True):
        libc.mprotect(self.lo, self.hi - self.lo, 1 if ro else 3)
    def free(self):
        libc.munmap(self.base, (self.pages + 2) * PAGE)

_libs = {}
def get(impl, k, mode="real", tag=""):
    key = (impl, k, mode, tag)
    if key not in _libs:
        _libs[key] = Lib(impl, k, mode, tag)
    return _libs[key]

class Lib:
    def __init__(self, impl, k, mode="real", tag=""):
        self.impl, self.k, self.mode = impl, k, mode
        path = f"{build.outdir()}/kyb_{impl}{k}_{mode}{tag}.so"
        if not os.path.exists(path): path = build.lib(impl, k, mode)
        self.l = C.CDLL(path, mode=os.RTLD_NOW)
        ns = f"pqcrystals_kyber{NAME[k]}_{impl}_"
        self.f = {n: getattr(self.l, ns + n) for n in ("keypair_derand", "keypair", "enc_derand", "enc", "dec")}
        for f in self.f.values(): f.restype = C.c_int
        self.l.rng_set.argtypes = [C.c_void_p, C.c_size_t]
        for n in ("rng_pos", "rng_calls", "rng_overrun"): getattr(self.l, n).restype = C.c_size_t
        self.l.rng_len.restype = C.c_size_t
        self._b = {}; self._np = 0; self.l.rng_paint.argtypes = [C.c_uint64]
    def paint(self): self._np += 1; self.l.rng_paint(self._np)
    def buf(self, name, n):
        if name not in self._b: self._b[name] = Guard(n)
        return self._b[name]
    def _in(self, name, data):
        g = self.buf(name, len(data))
        if g.n != len(data): g = self._b[name] = Guard(len(data))
        g.set(data); return C.c_void_p(g.addr)
    def _out(self, name, n):
        g = self.buf(name, n); return g, C.c_void_p(g.addr)
    def keypair_derand(self, coins):
        pk, p = self._out("pk", PK[self.k]); sk, s = self._out("sk", SK[self.k])
        a = (p, s, self._in("coins64", coins),); self.paint(); st = self.f["keypair_derand"](*a)
        return st, pk.get(), sk.get()
    def keypair(self):
        pk, p = self._out("pk", PK[self.k]); sk, s = self._out("sk", SK[self.k])
        a = (p, s,); self.paint(); st = self.f["keypair"](*a)
        return st, pk.get(), sk.get()
    def enc_derand(self, pk, m):
        ct, c = self._out("ct", CT[self.k]); ss, s = self._out("ss", 32)
        a = (c, s, self._in("pkin", pk), self._in("coins32", m),); self.paint(); st = self.f["enc_derand"](*a)
        return st, ct.get(), ss.get()
    def enc(self, pk):
        ct, c = self._out("ct", CT[self.k]); ss, s = self._out("ss", 32)
        a = (c, s, self._in("pkin", pk),); self.paint(); st = self.f["enc"](*a)
        return st, ct.get(), ss.get()
    def dec(self, ct, sk):
        ss, s = self._out("ss", 32)
        a = (s, self._in("ctin", ct), self._in("skin", sk),); self.paint(); st = self.f["dec"](*a)
        return st, ss.get()
    # randomness tape
    def tape(self, data):
        self._tape = C.create_string_buffer(bytes(data), max(1, len(data)))
        self.l.rng_set(self._tape, len(data))
    def tape_pos(self): return self.l.rng_pos()
    # oracle world
    def reset(self): self.l.orc_reset()
    def clearlog(self): self.l.orc_clearlog()
    def program(self, rate, ds, inp, out):
        self.l.orc_program(C.c_uint(rate), C.c_uint8(ds), bytes(inp), C.c_size_t(len(inp)), bytes(out), C.c_size_t(len(out)))
    def foreign(self): return self.l.orc_foreign()
    def log(self, extend=True):
        """Distinct completed queries as dicts r, d, i, o (o as far as it was read; XOF at least 3 blocks)."""
        self.l.orc_count.restype = C.c_size_t
        res = {}
        for j in range(self.l.orc_count()):
            r, d, n, o, p = C.c_uint(), C.c_uint(), C.c_size_t(), C.c_size_t(), C.c_void_p()
            self.l.orc_get(C.c_size_t(j), C.byref(r), C.byref(d), C.byref(n), C.byref(o), C.byref(p))
            if d.value == 0 or o.value == 0: continue
            inp = C.string_at(p.value, n.value)
            key = (r.value, d.value, inp)
            res[key] = max(res.get(key, 0), o.value)
        out = []
        for (r, d, inp), n in res.items():
            o = self.answer(r, d, inp, n)
            if r == 168 and extend:              # a matrix stream: as far as SampleNTT needs it
                while accepted(o) < 256 and n < 168 * 60:
                    n += 168; o = self.answer(r, d, inp, n)
            out.append(dict(r=r, d=d, i=list(inp), o=list(o)))
        return out
    def answer(self, r, d, inp, n):
        b = C.create_string_buffer(n)
        self.l.orc_answer(b, C.c_size_t(n), C.c_uint(r), C.c_uint8(d), bytes(inp), C.c_size_t(len(inp)))
        return b.raw
