"""C11, C12: hashing; C19: compare and conditional move."""
import ctypes as C, hashlib, json, mmap, os, random
import build, eng, kyb, san, tlc
from kyb import PAGE, libc
IMPLS = ("ref", "avx2")
RATE = (168, 136)

class Arena:
    """A mapped run of pages between inaccessible ones; data is placed against either end."""
    def __init__(self, pages=4):
        self.pages = pages; self.base = libc.mmap(None, (pages + 2) * PAGE, 0, 0x22, -1, 0)
        self.lo = self.base + PAGE; self.hi = self.lo + pages * PAGE
        libc.mprotect(self.lo, pages * PAGE, 3); C.memset(self.lo, 0xA5, pages * PAGE)
    def put(self, data, side="end", shift=0):
        n = len(data); assert n + shift <= self.pages * PAGE
        self.n = n; self.addr = self.hi - n - shift if side == "end" else self.lo + shift
        self.c0, self.c1 = max(self.lo, self.addr - 64), min(self.hi, self.addr + n + 64)
        C.memset(self.c0, 0xA5, self.c1 - self.c0); C.memmove(self.addr, bytes(data), n)
        return C.c_void_p(self.addr)
    def out(self, n, side="end", shift=0): return self.put(b"\xA5" * n, side, shift)
    def get(self): return C.string_at(self.addr, self.n)
    def clean(self):
        """Bytes around the buffer are untouched."""
        return C.string_at(self.c0, self.addr - self.c0).strip(b"\xA5") == b"" and C.string_at(self.addr + self.n, self.c1 - self.addr - self.n).strip(b"\xA5") == b""

_lib = {}
def lib(impl):
    if impl not in _lib:
        d = f"{build.REPO}/{impl}"
        g = build.obj(impl, f"{build.HERE}/glue_fips.c", ["-DGLUE_X4"] if impl == "avx2" else [], f"g_{impl}")
        p = build.link(f"{build.outdir()}/glue_{impl}.so", [g] + [f.result() for f in build.hash_objs(impl)])
        l = C.CDLL(p); l.g_state_size.restype = C.c_size_t
        if impl == "avx2": l.g_x4_size.restype = C.c_size_t
        _lib[impl] = l
    return _lib[impl]
def prepare():
    for i in IMPLS: build.hash_objs(i); san.objs(i, 2)
    build.pmap(lambda i: (lib(i), san.exe(i, 2)), IMPLS)
sz = C.c_size_t
def msgbytes(R, n):
    c = R.randrange(6)
    if c == 0: return bytes(n)
    if c == 1: return b"\xff" * n
    if c == 2: return bytes((i + R.randrange(256)) & 255 for i in range(n)) if n < 64 else (bytes(range(256)) * (n // 256 + 1))[:n]
    return R.randbytes(n)
def side(R): return (R.choice(["end", "start"]), R.choice([0, 0, 0, 1, 2, 3, 4, 7, 8, 15, 16]))
def anchor(v, msg, n): return (hashlib.shake_256 if v else hashlib.shake_128)(msg).digest(n)

# ------------------------------------------------------------- single lane
def replay_sponge(impl, behs, seed, record):
    """Performs Sponge behaviours; record True: byte events for SpongeTrace, else
    PureTrace pairs against an independent implementation of FIPS 202."""
    R = random.Random(f"sponge/{impl}/{seed}"); l = lib(impl); out = []
    A, B = Arena(), Arena(); ssz = l.g_state_size(); S = {x: Arena(1) for x in (1, 2)}; ptr = {}
    call = 0
    for beh in behs:
        out.append(dict(op="reset"))
        if record is False: call = 0
        ref = {}
        for x in S: ptr[x] = S[x].put(R.randbytes(ssz)) if S[x].addr_ok(ssz) else S[x].put(R.randbytes(ssz), "start")
        for e in beh:
            op, x = e["op"], e["x"]; ev = dict(e); rec = None
            if op == "init": l.g_init(RATE.index(e["r"]), ptr[x]); ref[x] = dict(v=RATE.index(e["r"]), m=b"", o=0)
            elif op == "absorb":
                d = msgbytes(R, e["n"]); ev["in"] = list(d); l.g_absorb(ref[x]["v"], ptr[x], A.put(d, *side(R)), sz(len(d))); ref[x]["m"] += d
            elif op == "finalize": l.g_finalize(ref[x]["v"], ptr[x])
            elif op == "once":
                v = RATE.index(e["r"]); d = msgbytes(R, e["n"]); ev["in"] = list(d)
                l.g_absorb_once(v, ptr[x], A.put(d, *side(R)), sz(len(d))); ref[x] = dict(v=v, m=d, o=0)
            elif op in ("squeeze", "blocks"):
                s = ref[x]; n = e["n"] * (RATE[s["v"]] if op == "blocks" else 1); p = B.out(n, *side(R))
                (l.g_squeeze if op == "squeeze" else l.g_squeezeblocks)(s["v"], *((ptr[x], p, sz(e["n"]))))
                o = B.get(); ev["out"] = list(o); rec = (s["v"], s["m"], s["o"], n, o); s["o"] += n
            elif op == "copy": C.memmove(ptr[e["y"]].value, ptr[x].value, ssz); ref[e["y"]] = dict(ref[x])
            ok = A_ok(A) and A_ok(B) and all(s.clean() for s in S.values())
            if record:
                if not ok: ev["op"] = "memory outside the buffers changed in " + op
                out.append(ev)
            elif rec:
                v, m, o, n, got = rec; call += 1
                out += pair(call, anchor(v, m, o + n)[o:], got, ok, f"{impl} {op} v={v} len={len(m)} off={o} n={n}")
    return out
def A_ok(a): return not hasattr(a, "addr") or a.clean()
Arena.addr_ok = lambda self, n: (self.hi - n) % 32 == 0
def num(b): return int.from_bytes(hashlib.sha256(b).digest()[:3], "big")
def pair(call, want, got, ok, note):
    return [dict(op="x", call=call, st=0, res=num(want), impl="fips202", note=note),
            dict(op="x", call=call, st=0 if ok else 1, res=num(got) if got != want else num(want), impl="code", note=note)]
def oneshot_job(impl, lens, seed, per):
    """One-shot functions over every message length, output lengths around block edges."""
    R = random.Random(f"one/{impl}/{seed}"); l = lib(impl); A, B = Arena(), Arena(); out = []; call = 0
    for n in lens:
        if call > 400: out.append(dict(op="reset")); call = 0
        for _ in range(per):
            m = msgbytes(R, n)
            for v in (0, 1):
                on = R.choice([0, 1, 31, 32, 33, 64, RATE[v] - 1, RATE[v], RATE[v] + 1, 2 * RATE[v], R.randrange(700)])
                p = B.out(on, *side(R)); l.g_shake(v, p, sz(on), A.put(m, *side(R)), sz(n)); call += 1
                out += pair(call, anchor(v, m, on), B.get(), A.clean() and B.clean(), f"{impl} shake{v} len={n} out={on}")
                on = (32, 64)[v]; p = B.out(on, *side(R)); l.g_sha3(v, p, A.put(m, *side(R)), sz(n)); call += 1
                out += pair(call, (hashlib.sha3_512 if v else hashlib.sha3_256)(m).digest(), B.get(), A.clean() and B.clean(), f"{impl} sha3/{v} len={n}")
    return out
def split_job(impl, lens, seed, per):
    """Random splittings of every message length and of the output."""
    R = random.Random(f"split/{impl}/{seed}"); l = lib(impl); A, B, S = Arena(), Arena(), Arena(1); out = []; call = 0
    ssz = l.g_state_size()
    for n in lens:
        if call > 400: out.append(dict(op="reset")); call = 0
        for _ in range(per):
            m = msgbytes(R, n); v = R.randrange(2); s = S.put(R.randbytes(ssz)); l.g_init(v, s)
            cuts = sorted([R.randrange(n + 1) for _ in range(R.randrange(5))] + [R.choice([0, n, min(n, RATE[v]), min(n, 2 * RATE[v])])])
            for a, b in zip([0] + cuts, cuts + [n]): l.g_absorb(v, s, A.put(m[a:b], *side(R)), sz(b - a))
            l.g_finalize(v, s); off = 0; got = b""
            for _ in range(R.randrange(1, 6)):
                k = R.choice([0, 1, 8, RATE[v], RATE[v] - 1, R.randrange(400)])
                if off % RATE[v] == 0 and R.random() < .3:
                    k = R.randrange(3); l.g_squeezeblocks(v, s, B.out(k * RATE[v], *side(R)), sz(k)); k *= RATE[v]
                else: l.g_squeeze(v, s, B.out(k, *side(R)), sz(k))
                got += B.get(); off += k
            call += 1
            out += pair(call, anchor(v, m, off), got, A.clean() and B.clean() and S.clean(), f"{impl} split v={v} len={n} cuts={cuts} out={off}")
    return out
def checked(impl, seed, n, four):
    """Calls in the program that checks every access against the objects there are, over stacks that held anything."""
    R = random.Random(f"ck/{impl}/{four}/{seed}"); jobs, out, call = [], [dict(op="reset")], 0
    for _ in range(n):
        v = R.randrange(2); r = RATE[v]; m = msgbytes(R, R.choice([0, 1, 31, 32, 33, 64, 71, 72, 135, 136, 137, 167, 168, 169, 271, 272, 335, 336, 337, R.randrange(900)])); al = R.randrange(32); f = R.randrange(3 if not four else 2); A = lambda q: anchor(v, m, q)
        on = R.choice([0, 1, 32, r - 1, r, r + 1, 2 * r, 3 * r, R.randrange(600)]); nb = R.randrange(4)
        if four:
            ms = lanes(R, len(m)); cuts = []; op = 12
            if f: op, on, cuts = 22, nb * r, [nb]
            jobs.append((san.rec(op, [on] * 4 + ms, v, al, b"", cuts), [on] * 4 + [len(m)] * 4, [anchor(v, x, on) for x in ms], ms, f"x4 v={v} len={len(m)} out={on} op={op}"))
            continue
        if f == 0 and R.random() < .5: on = (32, 64)[v]; jobs.append((san.rec(11, [on, m], v, al), [on, len(m)], [(hashlib.sha3_512 if v else hashlib.sha3_256)(m).digest()], [m], f"sha3 {v} len={len(m)}")); continue
        op, cuts = 10, []
        if f == 1: op, on, cuts = 21, nb * r, [nb]
        if f == 2:
            op = 20; c = sorted(R.randrange(len(m) + 1) for _ in range(R.randrange(4))); p = [b - a for a, b in zip([0] + c, c + [len(m)])]; q = []; on = 0
            for _ in range(R.randrange(1, 5)):
                if on % r == 0 and R.random() < .4: k = R.randrange(3); q.append(k | 1 << 31); on += k * r
                else: k = R.choice([0, 1, 8, r, R.randrange(300)]); q.append(k); on += k
            cuts = [len(p)] + p + q
        jobs.append((san.rec(op, [on, m], v, al, b"", cuts), [on, len(m)], [A(on)], [m], f"op={op} v={v} len={len(m)} out={on} cuts={cuts}"))
    res, rep = san.perform(san.exe(impl, 2), [j[:2] for j in jobs])
    for (_, _, want, ms, note), (st, bs) in zip(jobs, res):
        for j, w in enumerate(want): call += 1; out += pair(call, w, bs[j], bs[len(want):] == ms, f"checked {impl} {note} [{j}]")
    return out + (pair(call + 1, b"", b"", False, rep + " " + jobs[len(res)][4]) if rep else [])
# ---- lengths that do not fit 32 bits
BIG = (1 << 32) + 17
def bigmap(n):
    libc.mmap.restype = C.c_void_p
    return libc.mmap(None, n + PAGE, 1, 0x4022, -1, 0)           # private anonymous, no reserve, read-only: the zero page
def big_job(impl, what):
    R = None; l = lib(impl); want = json.load(open(os.path.join(build.ROOT, "harness", "big_hash.json")))
    o = (C.c_uint8 * 64)(); ssz = l.g_state_size(); s = (C.c_uint8 * (ssz + 64))()
    if what == "sha3_256": l.g_sha3(0, o, C.c_void_p(bigmap(BIG)), sz(BIG)); got = bytes(o)[:32]
    elif what == "sha3_512": l.g_sha3(1, o, C.c_void_p(bigmap(BIG)), sz(BIG)); got = bytes(o)
    elif what == "once": l.g_absorb_once(0, s, C.c_void_p(bigmap(BIG)), sz(BIG)); l.g_squeeze(0, s, o, sz(64)); got = bytes(o)
    elif what == "shake256": l.g_shake(1, o, sz(64), C.c_void_p(bigmap(BIG)), sz(BIG)); got = bytes(o)
    elif what == "absorb":
        p = C.c_void_p(bigmap(BIG)); l.g_init(1, s); l.g_absorb(1, s, p, sz(5)); l.g_absorb(1, s, p, sz(BIG - 5)); l.g_finalize(1, s); l.g_squeeze(1, s, o, sz(64)); got = bytes(o)
    elif what in ("squeeze", "shakeout", "blocks"):
        w = 64 << 20; n = BIG if what != "blocks" else (BIG // 168 + 1) * 168
        fd = os.memfd_create("w"); os.ftruncate(fd, w)
        base = libc.mmap(None, (n // w + 2) * w, 0, 0x4022, -1, 0)
        for i in range(n // w + 1): libc.mmap(C.c_void_p(base + i * w), w, 3, 0x11, fd, 0)
        if what == "shakeout": l.g_shake(0, C.c_void_p(base), sz(n), b"", sz(0))
        else:
            l.g_init(0, s); l.g_finalize(0, s)
            if what == "squeeze": l.g_squeeze(0, s, C.c_void_p(base), sz(n))
            else: l.g_squeezeblocks(0, s, C.c_void_p(base), sz(n // 168))
        got = hashlib.sha256(C.string_at(base, w)).digest(); os.close(fd)
    elif what == "x4":
        al = (C.addressof(s) + 31) & ~31; st = (C.c_uint8 * (l.g_x4_size() + 64))(); al = (C.addressof(st) + 31) & ~31
        p = C.c_void_p(bigmap(BIG)); l.g_x4_absorb_once(1, C.c_void_p(al), p, p, p, p, sz(BIG)); oo = [(C.c_uint8 * 136)() for _ in range(4)]
        l.g_x4_squeezeblocks(1, C.c_void_p(al), *oo, sz(1)); g = {bytes(x)[:64] for x in oo}; got = g.pop() if len(g) == 1 else b"lanes differ"; what = "shake256"
    key = {"absorb": "shake256", "once": "shake128", "shakeout": "squeeze"}.get(what, what)
    return pair(1, bytes.fromhex(want[key]), got, True, f"{impl} {what} {BIG} bytes")

def sponge_behaviours(ctx, num):
    r, bs = tlc.behaviours("Sponge", "Sponge_gen.cfg", workers=8, extra=["-simulate", f"num={num}", "-depth", "16", "-seed", str(ctx.rnd.randrange(1 << 40))])
    if not r["ok"]: raise RuntimeError(r["out"])
    ctx.tlc(r); bs = list({str(b): b for b in bs}.values()); ctx.rnd.shuffle(bs); return bs
def c11(ctx):
    prepare()
    r = ctx.tlc(tlc.run("Sponge", "Sponge_mc.cfg", workers=4))
    if not r["ok"]: raise RuntimeError(r["out"][-2000:])
    rd = 0
    while True:
        bs = sponge_behaviours(ctx, ctx.pick(350, 3000)); ctx.add("sponge_behaviours", len(bs)); ctx.sample(bs[0])
        fine, bulk = bs[:ctx.pick(500, 3000)], bs[ctx.pick(500, 3000):]
        lens = list(range(0, ctx.pick(520, 1400)))
        jobs = []
        if rd == 0: jobs += [(big_job, i, w) for i, w in ((("ref", "sha3_256"), ("ref", "absorb"), ("ref", "once"), ("avx2", "squeeze"))
                             if not ctx.thorough else [(i, w) for i in IMPLS for w in ("sha3_256", "sha3_512", "once", "shake256", "absorb", "squeeze", "shakeout", "blocks")])]
        nb = len(jobs)
        jobs += [(replay_sponge, IMPLS[j % 2], bulk[j::8], f"{ctx.seed}/{rd}", False) for j in range(8)]
        jobs += [(oneshot_job, i, lens[j::2], f"{ctx.seed}/{rd}/{j}", ctx.pick(1, 4)) for i in IMPLS for j in range(2)]
        jobs += [(split_job, i, lens[j::2], f"{ctx.seed}/{rd}/{j}", ctx.pick(6, 30)) for i in IMPLS for j in range(2)]
        jobs += [(checked, i, f"{ctx.seed}/{rd}/{j}", ctx.pick(600, 6000), False) for i in IMPLS for j in range(2)]
        tr = eng.gather(ctx, jobs, "C11 hashing")
        ctx.add("hash_outputs_compared", sum(e["op"] == "x" for t in tr for e in t) // 2)
        tr = [[dict(op="reset")] + t for t in tr]
        eng.judge(ctx, None, "PureTrace", what="C11 hashing", traces=[eng.flat(tr[j::8]) for j in range(8)])
        if ctx.viol: return
        tr = eng.gather(ctx, [(replay_sponge, IMPLS[j % 2], fine[j::8], f"t{ctx.seed}/{rd}", True) for j in range(8)], "C11 sponge traces")
        tr = [t + o for t, o in zip(tr, eng.gather(ctx, [(hash_events, IMPLS[j % 2], f"{ctx.seed}/{rd}/{j}", ctx.pick(25, 120)) for j in range(8)], "C11 one-shot traces"))]
        eng.judge(ctx, None, "SpongeTrace", what="C11 sponge", traces=tr)
        rd += 1
        if not ctx.thorough or ctx.viol or ctx.left() < 90: return
def hash_events(impl, seed, n):
    R = random.Random(f"he/{impl}/{seed}"); l = lib(impl); A, B = Arena(), Arena(); out = []
    for i in range(n):
        m = msgbytes(R, R.choice([0, 1, 71, 72, 73, 135, 136, 137, 143, 144, 167, 168, 169, 271, 272, 335, 336, R.randrange(600)]))
        v = R.randrange(2); f = R.randrange(2); on = (32, 64)[v] if f else R.randrange(400)
        p = B.out(on, *side(R)); q = A.put(m, *side(R))
        if f: l.g_sha3(v, p, q, sz(len(m)))
        else: l.g_shake(v, p, sz(on), q, sz(len(m)))
        out.append({"op": "hash", "r": (136, 72)[v] if f else RATE[v], "d": 6 if f else 31, "in": list(m), "out": list(B.get()), "impl": impl})
    return out

# ------------------------------------------------------------------ four lanes
def lanes(R, n):
    c = R.randrange(5)
    if c == 0: m = msgbytes(R, n); return [m] * 4
    if c == 1:
        m = bytearray(msgbytes(R, n)); r = []
        for i in range(4):
            x = bytearray(m)
            if n: x[R.choice([0, n - 1, R.randrange(n)])] ^= 1 << R.randrange(8)
            r.append(bytes(x))
        return r
    return [msgbytes(R, n) for _ in range(4)]
def x4_call(l, R, n, on, AI, AO, st, ssz):
    """One four-way hash, one-shot or absorb_once + block-wise; returns (v, ins, outs, clean)."""
    v = R.randrange(2); ins = lanes(R, n); sd = [side(R) for _ in range(8)]
    if R.random() < .15 and len(set(ins)) == 1: p = [AI[0].put(ins[0], *sd[0])] * 4
    else: p = [AI[j].put(ins[j], *sd[j]) for j in range(4)]
    if R.random() < .5:
        q = [AO[j].out(on, *sd[4 + j]) for j in range(4)]
        l.g_x4(v, *q, sz(on), *p, sz(n)); outs = [a.get() for a in AO]; ok = all(A_ok(a) for a in AI + AO)
    else:
        r = RATE[v]; nb = (on + r - 1) // r; on = nb * r; s = st.put(R.randbytes(ssz)); outs = [b""] * 4; ok = True
        l.g_x4_absorb_once(v, s, *p, sz(n))
        while nb > 0:
            k = min(nb, R.choice([0, 1, 1, 2, 3])); q = [AO[j].out(k * r, *sd[4 + j]) for j in range(4)]
            l.g_x4_squeezeblocks(v, s, *q, sz(k)); outs = [o + a.get() for o, a in zip(outs, AO)]; nb -= k
            ok = ok and all(A_ok(a) for a in AI + AO + [st])
    ok = ok and all(AI[j].get() == ins[j] for j in range(4) if hasattr(AI[j], "n") and AI[j].n == n and p[j].value == AI[j].addr)
    return v, ins, outs, on, ok
def x4_job(lens, seed, per, record):
    R = random.Random(f"x4/{seed}"); l = lib("avx2"); out = []; call = 0
    AI, AO, st = [Arena() for _ in range(4)], [Arena() for _ in range(4)], Arena(1); ssz = l.g_x4_size()
    for n in lens:
        if call > 400: out.append(dict(op="reset")); call = 0
        for _ in range(per):
            on = R.choice([0, 1, 31, 32, 64, 128, 135, 136, 137, 167, 168, 169, 192, 272, 336, 504, R.randrange(700)])
            v, ins, outs, on, ok = x4_call(l, R, n, on, AI, AO, st, ssz)
            if record: out.append(dict(op="x4" if ok else "memory outside the buffers changed", r=RATE[v], ins=[list(x) for x in ins], n=on, outs=[list(x) for x in outs], note=f"len={n}"))
            else:
                for j in range(4):
                    call += 1; out += pair(call, anchor(v, ins[j], on), outs[j], ok, f"x4 lane {j} v={v} len={n} out={on}")
    return out
def c12(ctx):
    prepare(); rd = 0
    r = ctx.tlc(tlc.run("Sponge", "Sponge_mc.cfg", workers=4))
    if not r["ok"]: raise RuntimeError(r["out"][-2000:])
    while True:
        lens = list(range(0, ctx.pick(560, 1700)))
        jobs = ([(big_job, "avx2", "x4")] if rd == 0 else []) + [(x4_job, lens[j::8], f"{ctx.seed}/{rd}/{j}", ctx.pick(8, 40), False) for j in range(8)]
        jobs += [(checked, "avx2", f"{ctx.seed}/{rd}/{j}", ctx.pick(400, 4000), True) for j in range(2)]
        tr = eng.gather(ctx, jobs, "C12 four-way hashing")
        ctx.add("lanes_compared", sum(e["op"] == "x" for t in tr for e in t) // 2)
        tr = [[dict(op="reset")] + t for t in tr]
        eng.judge(ctx, None, "PureTrace", what="C12 four-way hashing", traces=[eng.flat(tr[j::8]) for j in range(8)])
        if ctx.viol: return
        edge = [0, 1, 7, 8, 9, 31, 32, 33, 34, 63, 64, 65, 127, 128, 129, 135, 136, 137, 160, 167, 168, 169, 271, 272, 273, 335, 336, 337]
        tr = eng.gather(ctx, [(x4_job, [ctx.rnd.choice(edge + [ctx.rnd.randrange(400)]) for _ in range(ctx.pick(45, 250))], f"t{ctx.seed}/{rd}/{j}", 1, True) for j in range(8)], "C12 traces")
        ctx.sample({k: tr[0][0][k] for k in ("r", "n", "note")})
        eng.judge(ctx, None, "SpongeTrace", what="C12 four-way", traces=tr)
        rd += 1
        if not ctx.thorough or ctx.viol or ctx.left() < 90: return
