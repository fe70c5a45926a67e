"""C19: constant-time compare and conditional move."""
import ctypes as C, os, random
import build, eng, tlc
from c_hash import Arena, A_ok
from kyb import PAGE, libc
IMPLS = ("ref", "avx2"); sz = C.c_size_t
_lib = {}
def objs(impl, k=3):
    kf = [f"-DKYBER_K={k}"]
    fs = [build.obj_async(impl, f, kf, f"o_{impl}{k}") for f in build.sources(impl) + ["symmetric-shake.c"]]
    fs.append(build.obj_async(impl, f"{build.HERE}/stub_rng.c", [], f"s_{impl}"))
    return fs + build.hash_objs(impl)
def lib(impl):
    if impl not in _lib:
        out = f"{build.outdir()}/verify_{impl}.so"
        if not os.path.exists(out):
            fs = objs(impl)
            g = build.obj(impl, f"{build.HERE}/glue_verify.c", ["-DKYBER_K=3"] + (["-DGLUE_INT16"] if impl == "ref" else []), f"gv_{impl}")
            build.link(out, [g] + [f.result() for f in fs])
        l = C.CDLL(out); l.g_verify.restype = C.c_int; l.g_verify.argtypes = [C.c_void_p, C.c_void_p, sz]
        l.g_cmov.argtypes = [C.c_void_p, C.c_void_p, sz, C.c_uint8]; l.g_cmov.restype = None
        _lib[impl] = l
    return _lib[impl]
def prepare():
    for i in IMPLS: build.hash_objs(i); objs(i)
    for i in IMPLS: lib(i)
DELTAS = [1, 2, 4, 8, 16, 32, 64, 128, 255, 127]
def base(R, n):
    c = R.randrange(5)
    return bytes(n) if c == 0 else b"\xff" * n if c == 1 else b"\x80" * n if c == 2 else R.randbytes(n)
class Pair:
    def __init__(self, l, R, size):
        self.l, self.R = l, R; self.A, self.B = Arena((size + 64) // PAGE + 1), Arena((size + 64) // PAGE + 1)
    def place(self, a, b):
        R = self.R
        for ar, d in ((self.A, a), (self.B, b)): ar.put(d, R.choice(["end", "start"]), R.choice([0, 0, 0, R.randrange(33)]))
    def verify(self, a, D, note):
        b = bytearray(a)
        for p, x in D: b[p] ^= x
        self.place(a, b); p, q = (self.A.addr, self.B.addr) if self.R.random() < .5 else (self.B.addr, self.A.addr)
        r = self.l.g_verify(p, q, len(a))
        ok = A_ok(self.A) and A_ok(self.B) and self.A.get() == bytes(a) and self.B.get() == bytes(b)
        return dict(op="verify", d=[x for _, x in D] or [0], res=r, st=0 if ok else 1, n=len(a), at=[p for p, _ in D], impl=note)
    def cmov(self, r, x, b, note):
        self.place(r, x); self.l.g_cmov(self.A.addr, self.B.addr, len(r), b); o = self.A.get()
        ok = A_ok(self.A) and A_ok(self.B) and self.B.get() == bytes(x)
        return dict(op="cmov", b=b, eqx=o == bytes(x), eqr=o == bytes(r), st=0 if ok else 1, n=len(r), impl=note)
def gen_job(impl, behs, seed):
    """Behaviours <<n, p, q>>: strings of length n that differ at p and q (n: nowhere)."""
    R = random.Random(f"ct/{impl}/{seed}"); P = Pair(lib(impl), R, 256); out = []
    for n, p, q in behs:
        d = R.choice(DELTAS); e = R.choice([d, d, (256 - d) & 255, 255 ^ d, R.choice(DELTAS)]) or 1
        D = ([] if p == n else [(p, d)]) + ([] if q in (n, p) else [(q, e)])
        a = base(R, n); out.append(P.verify(a, D, impl))
        x = bytearray(a)
        for j, v in D: x[j] ^= v
        if n and R.random() < .5: x = bytearray(R.randbytes(n))
        out.append(P.cmov(a, x, R.randrange(2), impl))
    return out
def single_job(impl, n, seed, part, parts):
    """Every single bit of two strings of length n."""
    R = random.Random(f"cs/{impl}/{n}/{seed}"); P = Pair(lib(impl), R, n); out = []; a = base(R, n)
    b = bytearray(a); P.place(a, b)
    for p in range(part, n, parts):
        if p % 97 == 0: a = base(R, n); P.place(a, a)
        for x in [1 << j for j in range(8)]:
            C.c_uint8.from_address(P.B.addr + p).value ^= x
            out.append(dict(op="verify", d=[x], res=P.l.g_verify(P.A.addr, P.B.addr, n), st=0, n=n, at=[p], impl=impl))
            C.c_uint8.from_address(P.B.addr + p).value ^= x
        out.append(dict(op="verify", d=[0], res=P.l.g_verify(P.A.addr, P.B.addr, n), st=0 if A_ok(P.A) and A_ok(P.B) else 1, n=n, at=[], impl=impl))
    return out
def random_job(impl, seed, num):
    """Random lengths; differences in structured sets of positions; fully random bytes."""
    R = random.Random(f"cr/{impl}/{seed}"); P = Pair(lib(impl), R, 4096); out = []
    for _ in range(num):
        n = R.choice([R.randrange(1, 200), 768, 1088, 1568, 32, R.randrange(200, 4000), 32 * R.randrange(1, 60)]); a = base(R, n)
        c = R.randrange(7)
        if c == 0: D = [(p, d) for d in [R.choice(DELTAS)] for p in range(n)]
        elif c == 1:
            s = R.choice([1, 2, 4, 8, 16, 32, 64, 128, 256]); p = R.randrange(n); d = R.choice(DELTAS)
            D = [(x, d) for x in range(p, n, s)]; D = D[:R.choice([2, 4, 256, len(D)])]
        elif c == 2: D = [(p, R.randrange(1, 256)) for p in R.sample(range(n), min(n, R.randrange(1, 5)))]
        elif c == 3: D = [(n - 1 - t, R.choice(DELTAS)) for t in [R.randrange(min(n, 33))]]
        elif c == 4:                       # the differences add up to a multiple of 256
            p = R.sample(range(n), min(n, R.randrange(2, 6))); v = [R.randrange(1, 256) for _ in p]; s = -sum(v[:-1]) & 255
            if s: v[-1] = s
            D = list(zip(p, v))
        elif c == 5: D = []
        else: D = [(p, R.randrange(1, 256)) for p in range(n)]
        e = P.verify(a, D, impl); e["d"] = e["d"][:6]; e["at"] = e["at"][:6]; out.append(e)
        out.append(P.cmov(a, base(R, n), R.randrange(2), impl))
        if R.random() < .1:
            n = R.randrange(70); a = R.randbytes(n); b = bytearray(a)
            for _ in range(R.randrange(3)):
                if n: b[R.randrange(n)] ^= R.choice(DELTAS)
            P.place(a, b); r = P.l.g_verify(P.A.addr, P.B.addr, n); cb = R.randrange(2); P.l.g_cmov(P.A.addr, P.B.addr, n, cb)
            out.append(dict(op="bytes", a=list(a), b=list(b), c=cb, res=r, out=list(P.A.get()), st=0 if A_ok(P.A) and A_ok(P.B) and P.B.get() == bytes(b) else 1, impl=impl))
        if impl == "ref":
            o = (C.c_int16 * 3)(7, R.choice([0, -1, 1, 32767, -32768, 1665, R.randrange(-32768, 32768)]), 9); r = o[1]
            v = R.choice([0, 1665, -1, 32767, -32768, R.randrange(-32768, 32768)]); b = R.randrange(2)
            P.l.g_cmov16(C.byref(o, 2), C.c_int16(v), C.c_uint16(b))
            out.append(dict(op="cmov16", r=r, v=v, b=b, out=o[1], st=0 if (o[0], o[2]) == (7, 9) else 1, impl=impl))
    return out
BIG = (1 << 32) + 77
def big_job(impl, what):
    """Strings longer than 2^32 bytes: the zero page, with one private page changed."""
    l = lib(impl); libc.mmap.restype = C.c_void_p
    z = libc.mmap(None, BIG + PAGE, 1, 0x4022, -1, 0); out = []
    if what == "verify":
        y = libc.mmap(None, BIG + PAGE, 3, 0x4022, -1, 0)
        for p in (None, BIG - 1, BIG - 40):
            if p is not None: C.c_uint8.from_address(y + p).value = 128
            out.append(dict(op="verify", d=[0 if p is None else 128], res=l.g_verify(z, y, BIG), st=0, n="2^32+77", at=[str(p)], impl=impl))
            if p is not None: C.c_uint8.from_address(y + p).value = 0
    else:
        w = 64 << 20; fd = os.memfd_create("w"); os.ftruncate(fd, w); base_ = libc.mmap(None, (BIG // w + 2) * w, 0, 0x4022, -1, 0)
        for i in range(BIG // w + 1): libc.mmap(C.c_void_p(base_ + i * w), w, 3, 0x11, fd, 0)
        # the last 77 bytes alias the first ones; the rest of the window is written 64 times
        for b in (0, 1):
            C.memset(base_, 0x5A, w); l.g_cmov(base_, z, BIG, b); o = C.string_at(base_, w)
            out.append(dict(op="cmov", b=b, eqx=o == bytes(w), eqr=o == b"\x5a" * w, st=0, n="2^32+77", impl=impl))
            # and only the part past 2^32
            C.memset(base_, 0x5A, w); t = (1 << 32) + 9
            y = libc.mmap(None, BIG + PAGE, 3, 0x4022, -1, 0)
        os.close(fd)
    return out
def c19(ctx):
    try: prepare()
    except build.BuildError as e:
        import c_kem
        ctx.assumptions.append("verify.h no longer offers the two functions; only their effect on decapsulation was checked"); c_kem.c02(ctx); return
    r = ctx.tlc(tlc.run("CtUtil", "CtUtil_mc.cfg", workers=4))
    if not r["ok"]: raise RuntimeError(r["out"][-2000:])
    r, bs = tlc.behaviours("CtUtil", "CtUtil_gen.cfg", workers=4)
    if not r["ok"]: raise RuntimeError(r["out"])
    ctx.tlc(r); ctx.add("generated_patterns", len(bs)); rd = 0
    while True:
        ctx.rnd.shuffle(bs)
        jobs = [(big_job, i, w) for i in IMPLS for w in ("verify", "cmov")] if rd == 0 else []
        jobs += [(gen_job, i, bs[j::4], f"{ctx.seed}/{rd}/{j}") for i in IMPLS for j in range(4)]
        jobs += [(single_job, i, n, f"{ctx.seed}/{rd}", j, 2) for i in IMPLS for n in (768, 1088, 1568, 32) for j in range(2)]
        jobs += [(random_job, i, f"{ctx.seed}/{rd}/{j}", ctx.pick(2000, 8000)) for i in IMPLS for j in range(4)]
        tr = eng.gather(ctx, jobs, "C19 verify/cmov")
        ev = eng.flat(tr); ctx.sample(ev[0]); ctx.sample(ev[-1])
        eng.judge(ctx, None, "CtUtil", what="C19 verify/cmov", traces=[ev[j::8] for j in range(8)])
        rd += 1
        if not ctx.thorough or ctx.viol or ctx.left() < 60: return
