"""C20: CTR_DRBG; C21: seed expander; both of ref/nistkat/rng.c."""
import ctypes as C, os, random
import build, eng, san, tlc
from c_hash import Arena, A_ok, num, pair
from kyb import PAGE, libc
ul = C.c_ulong; ull = C.c_ulonglong
_lib = {}
def lib(world="aes"):
    """world aes: with libcrypto; fast: a stand-in cipher, unoptimised build."""
    if world not in _lib:
        d = f"{build.REPO}/ref/nistkat"; out = f"{build.outdir()}/rng_{world}.so"
        if not os.path.exists(out):
            o = out[:-3]; tmp = f"{o}.{build.uniq()}"
            fl = ["-O3", "-fomit-frame-pointer"] if world == "aes" else ["-O0"]
            build.run([build.CC, "-shared", "-fPIC", "-w", "-Wl,-Bsymbolic"] + fl + [f"-I{d}", f"-I{build.HERE}", f"{d}/rng.c", f"{build.HERE}/glue_rng.c"]
                      + ([f"{build.HERE}/stub_evp.c"] if world == "fast" else []) + ["-o", tmp] + (["-lcrypto"] if world == "aes" else []))
            os.rename(tmp, out)
        l = C.CDLL(out); l.r_xsize.restype = C.c_size_t
        _lib[world] = l
    return _lib[world]
def fast():
    """The world with the stand-in cipher, if this tree's calls to libcrypto can be stood in for."""
    try: return lib("fast")
    except (build.BuildError, OSError): return None
# ------------------------------------------------------------ block functions
class AesFn:
    def __init__(self):
        c = self.c = C.CDLL("libcrypto.so.3")
        c.EVP_CIPHER_CTX_new.restype = c.EVP_aes_256_ecb.restype = C.c_void_p
        self.x = C.c_void_p(c.EVP_CIPHER_CTX_new()); self.e = C.c_void_p(c.EVP_aes_256_ecb()); self.k = None
    def __call__(self, key, blocks):
        if key != self.k: self.c.EVP_EncryptInit_ex(self.x, self.e, None, key, None); self.c.EVP_CIPHER_CTX_set_padding(self.x, 0); self.k = key
        o = C.create_string_buffer(len(blocks) + 32); n = C.c_int(); self.c.EVP_EncryptUpdate(self.x, o, C.byref(n), blocks, len(blocks)); return o.raw[:len(blocks)]
class FastFn:
    def __call__(self, key, blocks):
        M = (1 << 64) - 1; k = [int.from_bytes(key[8*i:8*i+8], "little") for i in range(4)]; r = b""
        for j in range(0, len(blocks), 16):
            a = int.from_bytes(blocks[j:j+8], "little"); b = int.from_bytes(blocks[j+8:j+16], "little")
            a = ((a ^ k[0]) * 0x9E3779B97F4A7C15 + k[2]) & M; b = (((b + k[1]) & M) * 0xC2B2AE3D27D4EB4F & M) ^ (a >> 29) ^ k[3]; a = (a + (b >> 31)) & M
            r += a.to_bytes(8, "little") + b.to_bytes(8, "little")
        return r
def xor(a, b): return bytes(x ^ y for x, y in zip(a, b))
class Drbg:
    """SP 800-90A CTR_DRBG without derivation function, an independent implementation."""
    def __init__(self, E): self.E = E
    def ctr(self, n, m):                 # blocks n..m-1 counted from V
        v = int.from_bytes(self.V, "big"); return b"".join(((v + i) % (1 << 128)).to_bytes(16, "big") for i in range(n, m))
    def update(self, data):
        t = self.E(self.K, self.ctr(1, 4))
        if data: t = xor(t, data)
        self.K, self.V = t[:32], t[32:]
    def init(self, e, p): self.K, self.V = bytes(32), bytes(16); self.update(xor(e, p) if p else e)
    def gen(self, n, tail=None):
        nb = (n + 15) // 16; a = max(0, nb - tail) if tail else 0
        o = self.E(self.K, self.ctr(a + 1, nb + 1))[:n - 16 * a] if nb else b""
        self.V = ((int.from_bytes(self.V, "big") + nb) % (1 << 128)).to_bytes(16, "big"); self.update(None); return o
def entropy(R, E, t, p):
    """48 bytes after which the counter V stands t before a carry over several bytes."""
    if t >= 34 or R.random() < .1: return R.randbytes(48)
    t0, dl = t % 17, R.choice([0, 1, 2, 3, 4, 5, 6])
    v = int.from_bytes(R.randbytes(16 - t0) + b"\xff" * t0, "big"); v = (v - dl) % (1 << 128)
    e = R.randbytes(32) + xor(v.to_bytes(16, "big"), E(bytes(32), (3).to_bytes(16, "big")))
    return xor(e, p) if p else e
def pers(R): return R.choice([lambda: R.randbytes(48), lambda: bytes(48), lambda: bytes(range(48)), lambda: bytes(47) + b"\x80", lambda: b"\x01" + bytes(47)])()
BLKS = [1, 2, 15, 16, 17, 255, 256, 257, 4095, 4096, 65535, 65536, 65537]
class Rng:
    """Performs operations on the library and records them."""
    def __init__(self, R, E, world="aes"):
        self.R, self.E, self.l = R, E, lib(world); self.I, self.P, self.O = Arena(1), Arena(1), Arena(300); self.X = {j: Arena(1) for j in (1, 2)}; self.xs = self.l.r_xsize(); self.ref = {}
    def side(self): return self.R.choice(["end", "start"]), self.R.choice([0, 0, 1, 3, 8])
    def clean(self, *a): return 1 if all(A_ok(x) for x in a) else 0
    def init(self, t, p):
        R = self.R; q = pers(R) if p else b""; e = entropy(R, self.E, t, q)
        a = self.I.put(e, *self.side()); b = self.P.put(q, *self.side()) if q else None
        self.l.r_init(a, b, R.choice([256, 0, 128]))
        ok = self.clean(self.I, self.P) if q else self.clean(self.I)
        if self.I.get() != e or (q and self.P.get() != q): ok = 0
        return dict(op="init", e=list(e), p=list(q), clean=ok)
    def gen(self, n):
        p = self.O.out(n, *self.side()); st = self.l.r_gen(p, ull(n)); o = self.O.get()
        e = dict(op="gen", n=[n >> 24, n & 0xffffff], st=st, clean=self.clean(self.O))
        if n <= 4096: e["out"] = list(o)
        else: e["head"] = list(o[:16]); e["tail"] = list(o[-(n % 16 or 16) - 16:])
        return e, o
    def xinit(self, x, m, R=None):
        R = self.R; s, dv = R.randbytes(32), R.choice([R.randbytes(8), bytes(8), b"\xff" * 8]); bad = m >> 32
        if not bad or x not in self.ref: self.X[x].put(R.randbytes(self.xs), "end", -self.xs % 16)
        b = self.X[x].get(); si = self.I.put(s, *self.side()); di = self.P.put(dv, *self.side())
        st = self.l.r_xinit(C.c_void_p(self.X[x].addr), si, di, ul(m))
        if not bad: self.ref[x] = dict(s=s, d=dv, max=m, pos=0)
        return dict(op="xinit", x=x, seed=list(s), div=list(dv), max=list(m.to_bytes(8, "big")), st=st, same=1 if self.X[x].get() == b else 0,
                    clean=self.clean(self.X[x], self.I, self.P) if self.I.get() == s and self.P.get() == dv else 0)
    def xget(self, x, n, null=False, keep=64, tiny=False):
        """n may exceed any buffer when the request must be refused."""
        s = self.ref[x]; ref = null or n >= s["max"] - s["pos"]; size = 64 if ref else n
        p = None if null else self.O.out(size, *self.side()); b = self.X[x].get(); st = self.l.r_xget(C.c_void_p(self.X[x].addr), p, ul(n))
        o = b"" if null else self.O.get(); ok = 1 if null else self.clean(self.O); ok &= self.clean(self.X[x])
        same = 1 if self.X[x].get() == b and (null or o == b"\xA5" * size) else 0
        big = n >> 54 > 0
        if not ref: s["pos"] += n
        return dict(op="xget", x=x, n=[0, 0] if big else [n >> 24, n & 0xffffff], big=1 if big else 0, null=1 if null else 0, st=st, same=same, clean=ok,
                    out=[] if ref else list(o[-keep:] if n else b"")), (b"" if ref else o)
def perform(behs, seed):
    """Behaviours of KatRng on the library, as RngTrace events."""
    R = random.Random(f"rng/{seed}"); r = Rng(R, AesFn()); out = []
    for beh in behs:
        out.append(dict(op="reset")); out.append(r.init(R.randrange(41), 0)); r.ref = {}; mx = {}
        for e in beh:
            op = e["op"]
            if op == "init": out.append(r.init(e["t"], e["p"]))
            elif op == "gen": out.append(r.gen(e["n"])[0])
            elif op == "xinit":
                m = e["max"]; mx[e["x"]] = m
                if m == 1000000: m = R.choice([1000000, (1 << 24) - 1, 1 << 24, (1 << 24) + 5, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, R.randrange(1 << 20, 1 << 32)])
                out.append(r.xinit(e["x"], m))
            elif op == "xover": out.append(r.xinit(e["x"], [1 << 32, (1 << 32) + R.randrange(1 << 20), R.randrange(1 << 33, 1 << 64), (1 << 64) - 1][e["k"]]))
            elif op == "xget": out.append(r.xget(e["x"], e["n"], keep=4096 if e["n"] <= 200 else 200)[0])
            elif op == "xref":
                s = r.ref[e["x"]]; n = s["max"] - s["pos"] + e["k"]
                if e["k"] == 77: n = R.choice([n + 77, 1 << 32, (1 << 32) + s["max"] - s["pos"] - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - R.randrange(1, 40)])
                out.append(r.xget(e["x"], n)[0])
            elif op == "xnull": out.append(r.xget(e["x"], e["n"], null=True)[0])
    return out
def long_gen(seed, n, sizes):
    """Requests of many blocks: carries over two and three bytes of the counter."""
    R = random.Random(f"lg/{seed}"); r = Rng(R, AesFn()); out = [dict(op="reset")]
    for _ in range(n):
        out.append(r.init(R.randrange(41), R.randrange(2)))
        for _ in range(R.randrange(1, 5)):
            b = R.choice(sizes); out.append(r.gen(max(0, 16 * b - R.choice([0, 0, 1, 8, 15])))[0])
            if R.random() < .5: out.append(r.gen(48)[0])
    return out
def bulk_gen(seed, n):
    """Histories against an independent implementation."""
    R = random.Random(f"bg/{seed}"); E = AesFn(); r = Rng(R, E); D = Drbg(E); out = [dict(op="reset")]; call = 0
    for i in range(n):
        if i % 12 == 0:
            if call > 300: out.append(dict(op="reset")); call = 0
            e = r.init(R.randrange(41), R.randrange(2)); D.init(bytes(e["e"]), bytes(e["p"])); note = f"init p={bool(e['p'])}"
        m = R.choice([0, 1, 15, 16, 17, 32, 48, 64, R.randrange(300), R.randrange(5000)]) if R.random() < .97 else R.randrange(200000)
        e, o = r.gen(m); call += 1; out += pair(call, D.gen(m), o, e["clean"] and e["st"] == 0, f"randombytes({m})")
    return out
def bulk_exp(seed, n):
    R = random.Random(f"be/{seed}"); E = AesFn(); r = Rng(R, E); out = [dict(op="reset")]; call = 0
    for i in range(n):
        if call > 300: out.append(dict(op="reset")); call = 0
        x = R.choice([1, 2])
        if x not in r.ref or R.random() < .08 or r.ref[x]["max"] - r.ref[x]["pos"] < 20:
            m = R.choice([R.randrange(64, 5000), R.randrange(1 << 16, 1 << 20), (1 << 32) - 1]); r.xinit(x, m)
        s = r.ref[x]; m = min(R.choice([0, 1, 15, 16, 17, R.randrange(100), R.randrange(3000), 1 << R.randrange(18)]), s["max"] - s["pos"] - 1); pos = s["pos"]
        e, o = r.xget(x, m); call += 1
        b0 = pos // 16; c = b"".join(s["d"] + s["max"].to_bytes(4, "big") + ((b0 + i) & 0xffffffff).to_bytes(4, "big") for i in range((m + 31) // 16 + 1))
        out += pair(call, E(s["s"], c)[pos - 16*b0:][:m], o, e["clean"] and e["st"] == 0, f"seedexpander pos={pos} n={m}")
    return out
def checked(seed, n):
    """Histories in the program that checks every access against the objects there are."""
    if not fast() or not san.rng_exe(): return []
    R = random.Random(f"ck/{seed}"); hs = san.expand(R, FastFn(), Drbg, xor, n); got, rep = san.run_rng(san.rng_exe(), hs); out = [dict(op="reset")]; call = 0
    for (h, rq, want), g in zip(hs, got):
        for i, (w, o) in enumerate(zip(want, g)):
            call += 1; out += pair(call, w[1], o[1], w[0] == o[0], f"checked {'seedexpander' if h[0] else 'randombytes'} {rq} request {i}")
    return out + (pair(call + 1, b"", b"", False, rep) if rep else [])
def mdl(): return C.CDLL(build.helper("drbg_model", ["drbg_model.c"]))
def marathon(what, seed, n, per=4096):
    """Millions of requests to one instance, next to the model in C; which is next to the Python one first."""
    if not fast(): return []
    R = random.Random(f"ma/{seed}"); m = mdl(); l = lib("fast"); D = Drbg(FastFn()); out = [dict(op="reset")]; p = lambda f: C.cast(f, C.c_void_p)
    e = R.randbytes(48); m.m_init(e); D.init(e, b"")
    for i in range(40):
        z = R.choice([0, 1, 15, 16, 17, 48, R.randrange(200)]); o = C.create_string_buffer(z + 1); m.m_gen(o, C.c_size_t(z)); out += pair(i, D.gen(z), o.raw[:z], True, f"model {z}")
    b = n // per; a, c, st, en = (C.c_uint32 * b)(), (C.c_uint32 * b)(), (C.c_int32 * b)(), (C.c_uint8 * 48)(); sd = C.c_uint64(R.randrange(1 << 60))
    if what == "gen": m.marathon(p(l.r_init), p(l.r_gen0), sd, C.c_long(b), per, a, c, st, en)
    else: m.xmarathon(p(l.r_xinit), p(l.r_xget0), C.c_size_t(l.r_xsize()), sd, C.c_long(b), per, a, c, st)
    for i in range(b):
        for w, r in (("model", c[i]), ("code", a[i])): out.append(dict(op="x", call=100 + i, st=st[i] if w == "code" else 0, res=r, impl=w, note=f"{what} seed={sd.value} requests {i * per}.. of one instance"))
    return out
def window(n, w=16 << 20):
    """A mapping of n bytes and a window that aliases all of it."""
    fd = os.memfd_create("w"); os.ftruncate(fd, w); k = n // w + 1
    libc.mmap.restype = C.c_void_p
    base = libc.mmap(None, (k + 1) * w, 0, 0x4022, -1, 0)
    for i in range(k): libc.mmap(C.c_void_p(base + i * w), w, 3, 0x11, fd, 0)
    return base, w
def far_expander(seed, mb):
    """The block counter's carries into its second highest byte and beyond: requests far into the stream."""
    R = random.Random(f"fe/{seed}"); r = Rng(R, AesFn()); n = mb << 20; base, w = window(n); out = [dict(op="reset")]
    out.append(r.xinit(1, (1 << 32) - 1 - R.randrange(3)))
    s = r.ref[1]; m = n - R.choice([40, 24, 33]); st = r.l.r_xget(C.c_void_p(r.X[1].addr), C.c_void_p(base), ul(m)); s["pos"] += m
    e = base + (m - 64); out.append(dict(op="xget", x=1, n=[m >> 24, m & 0xffffff], big=0, null=0, st=st, same=0, clean=1, out=list(C.string_at(e, 64))))
    for _ in range(12): out.append(r.xget(1, R.choice([5, 16, 17, 31, 64]))[0])
    return out
def far_gen(world, n, seed):
    """A request longer than 2^31 or 2^32 bytes in one call, and what follows it."""
    R = random.Random(f"fg/{seed}"); E = FastFn() if world == "fast" else AesFn(); r = Rng(R, E, world); D = Drbg(E); base, w = window(n)
    e = R.randbytes(48); r.I.put(e); r.l.r_init(C.c_void_p(r.I.addr), None, 256); D.init(e, b"")
    st = r.l.r_gen(C.c_void_p(base), ull(n)); k = 8; t = D.gen(n, tail=k)
    o = C.string_at(base + n - len(t), len(t))
    ev = [dict(op="reset")] + pair(1, t, o, st == 0, f"end of randombytes({n}), {world}")
    e, o = r.gen(48); return ev + pair(2, D.gen(48), o, e["clean"] and e["st"] == 0, f"after randombytes({n}), {world}")
def model(ctx, cfg, n, depth):
    r = ctx.tlc(tlc.run("KatRng", "KatRng_mc.cfg", workers=4))
    if not r["ok"]: raise RuntimeError(r["out"][-2000:])
    r = ctx.tlc(tlc.run("AesLemmas", workers=1))
    if not r["ok"]: raise RuntimeError(r["out"][-2000:])
    lib("aes"); build.helper("drbg_model", ["drbg_model.c"]); ctx.cov["stand_in_cipher"] = 1 if fast() and san.rng_exe() else 0
def behs(ctx, cfg, n, depth):
    r, bs = tlc.behaviours("KatRng", cfg, workers=8, extra=["-simulate", f"num={n}", "-depth", str(depth), "-seed", str(ctx.rnd.randrange(1 << 40))])
    if not r["ok"]: raise RuntimeError(r["out"])
    ctx.tlc(r); bs = list({str(b): b for b in bs}.values()); ctx.rnd.shuffle(bs); ctx.add("behaviours_replayed", len(bs)); ctx.sample(bs[0]); return bs
def c20(ctx):
    model(ctx, None, 0, 0); rd = 0
    while True:
        jobs = [(far_gen, "fast" if fast() else "aes", (1 << 31) + 48 + ctx.rnd.randrange(32), f"{ctx.seed}/{rd}")] if rd == 0 else []
        if rd == 0 and ctx.thorough: jobs += [(far_gen, "fast", (1 << 32) + 37, ctx.seed)] * bool(fast()) + [(far_gen, "aes", (1 << 32) + 21, ctx.seed)]
        jobs += [(marathon, "gen", f"{ctx.seed}/{rd}", ctx.pick(18 << 20, 1 << 28 if rd == 0 else 1 << 24))]
        jobs += [(checked, f"{ctx.seed}/{rd}/{j}", ctx.pick(400, 4000)) for j in range(2)]
        jobs += [(bulk_gen, f"{ctx.seed}/{rd}/{j}", ctx.pick(6000, 30000)) for j in range(8)]
        tr = [t for t in eng.gather(ctx, jobs, "C20 generator") if t]; ctx.add("requests_compared", sum(e["op"] == "x" for t in tr for e in t) // 2)
        eng.judge(ctx, None, "PureTrace", what="C20 generator", traces=[eng.flat(tr[j::8]) for j in range(8) if tr[j::8]])
        if ctx.viol: return
        bs = behs(ctx, "KatRng_drbg.cfg", ctx.pick(400, 4000), 12)
        tr = eng.gather(ctx, [(perform, bs[j::8], f"{ctx.seed}/{rd}/{j}") for j in range(8)] + [(long_gen, f"{ctx.seed}/{rd}/{j}", ctx.pick(12, 60), BLKS) for j in range(8)], "C20 generator")
        eng.judge(ctx, None, "RngTrace", what="C20 generator", traces=[eng.flat(tr[j::8]) for j in range(8)])
        rd += 1
        if not ctx.thorough or ctx.viol or ctx.left() < 60: return
def c21(ctx):
    model(ctx, None, 0, 0); rd = 0
    while True:
        jobs = [(far_expander, f"{ctx.seed}/{rd}", m) for m in (([256, 16, 1] if not ctx.thorough else [256, 512, 1024, 2048, 16, 1]) if rd == 0 else [1, 16])]
        jobs += [(perform, b, f"{ctx.seed}/{rd}/{j}") for b, j in ((x[j::8], j) for x in [behs(ctx, "KatRng_exp.cfg", ctx.pick(600, 5000), 17)] for j in range(8))]
        tr = eng.gather(ctx, jobs, "C21 seed expander")
        eng.judge(ctx, None, "RngTrace", what="C21 seed expander", traces=[eng.flat(tr[j::8]) for j in range(8)])
        if ctx.viol: return
        tr = eng.gather(ctx, [(marathon, "expander", f"{ctx.seed}/{rd}", ctx.pick(18 << 20, 1 << 26 if rd == 0 else 1 << 24))] + [(bulk_exp, f"{ctx.seed}/{rd}/{j}", ctx.pick(5000, 30000)) for j in range(8)] + [(checked, f"{ctx.seed}/{rd}/{j}", ctx.pick(400, 4000)) for j in range(2)], "C21 seed expander"); tr = [t for t in tr if t]
        ctx.add("requests_compared", sum(e["op"] == "x" for t in tr for e in t) // 2)
        eng.judge(ctx, None, "PureTrace", what="C21 seed expander", traces=tr)
        rd += 1
        if not ctx.thorough or ctx.viol or ctx.left() < 60: return
