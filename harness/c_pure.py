"""C15: operations are pure."""
import ctypes as C, json, mmap, os, random
import numpy as np
import build, eng, kyb, tlc
class Call(C.Structure):
    _fields_ = [("kind", C.c_int), ("st", C.c_int), ("fn", C.c_void_p), ("a", C.c_void_p * 4), ("outlen", C.c_uint64 * 2), ("digest", C.c_uint64), ("t0", C.c_uint64), ("t1", C.c_uint64)]
KIND = {"keypair": 0, "enc": 1, "dec": 2}
FN = {"keypair": "keypair_derand", "enc": "enc_derand", "dec": "dec"}
def outs(op, k): return {"keypair": (kyb.PK[k], kyb.SK[k]), "enc": (kyb.CT[k], 32), "dec": (32,)}[op]
_drv = None
def drv():
    global _drv
    if _drv is None:
        _drv = C.CDLL(f"{build.outdir()}/pure_drv.so")
        _drv.stepped.restype = C.c_uint64; _drv.many.restype = C.c_int64
        _drv.many.argtypes = [C.c_void_p, C.c_int, C.c_int64, C.c_void_p]; _drv.stepped.argtypes = [C.c_void_p, C.c_void_p, C.c_void_p, C.c_int, C.c_void_p, C.c_void_p, C.c_uint64]
        _drv.threads.argtypes = [C.c_void_p, C.c_int, C.c_int]; _drv.one.argtypes = [C.c_void_p]
    return _drv
# ------------------------------------------------------------ the arguments
def bases(k, seed):
    R = random.Random(f"pure/{k}/{seed}"); l = kyb.Lib("ref", k)
    co = [R.randbytes(64), R.randbytes(64)]; ks = [l.keypair_derand(c)[1:] for c in co]
    m = [R.randbytes(32), R.randbytes(32)]
    return dict(co=co, pk=[x[0] for x in ks], sk=[x[1] for x in ks], m=m, ct=[[l.enc_derand(p[0], x)[1] for x in m] for p in ks])
def flip(b, i, x=1): b = bytearray(b); b[i] ^= x; return bytes(b)
def universe(k, B, seed):
    """Per operation: argument tuples; those before index `near' differ from the first in one field."""
    R = random.Random(f"pure/u/{k}/{seed}"); U = {}; s, t = 384 * k, 384 * k
    co, pk, sk, m, ct = B["co"], B["pk"], B["sk"], B["m"], B["ct"]
    near = [(co[0],)] + [(flip(co[0], i, 1 << R.randrange(8)),) for i in range(64)] + [(co[0][:32] + co[1][32:],), (co[1][:32] + co[0][32:],)]
    U["keypair"] = (near, near + [(co[1],), (bytes(64),), (b"\xff" * 64,), (co[0][32:] + co[0][:32],)])
    near = [(pk[0], m[0]), (pk[0], m[1]), (pk[1], m[0])] + [(flip(pk[0], i, 1 << R.randrange(8)), m[0]) for i in [0, 1, 8, 31, 32, 383, 384, t // 2, t - 1] + [R.randrange(t) for _ in range(12)] + list(range(t, t + 32))]
    near += [(pk[0], flip(m[0], i, 1 << R.randrange(8))) for i in range(32)] + [(pk[0][:t] + pk[1][t:], m[0]), (pk[1][:t] + pk[0][t:], m[0])]
    U["enc"] = (near, near + [(pk[1], m[1]), (bytes(len(pk[0])), bytes(32)), (b"\xff" * len(pk[0]), b"\xff" * 32), (R.randbytes(len(pk[0])), m[0])])
    n, c = len(sk[0]), len(ct[0][0]); u = c - (160 if k == 4 else 128)
    near = [(ct[0][0], sk[0]), (ct[0][1], sk[0]), (ct[1][0], sk[0]), (ct[0][0], sk[1])] + [(flip(ct[0][0], i, 1 << R.randrange(8)), sk[0]) for i in (0, 7, 8, 31, 32, c // 2, u - 1, u, c - 32, c - 1) + tuple(R.randrange(c) for _ in range(16))]
    o = [0, 1, 32, 383, s // 2, s - 1, s, s + 8, s + 31, s + 32, s + t // 2, s + t - 1, s + t, s + t + 7, s + t + 8, s + t + 31, ] + [R.randrange(n) for _ in range(12)] + list(range(n - 64, n)) + list(range(s + t, s + t + 32))
    near += [(ct[0][0], flip(sk[0], i, 1 << R.randrange(8))) for i in o]
    cuts = [0, s, s + t, s + t + 32, s + t + 64, n]
    near += [(ct[0][0], sk[0][:a] + sk[1][a:b] + sk[0][b:]) for a, b in zip(cuts, cuts[1:])]
    bad = flip(ct[0][0], 5)
    near += [(bad, sk[0]), (bad, flip(sk[0], n - 1)), (bad, flip(sk[0], n - 40)), (bad, sk[1])]
    U["dec"] = (near, near + [(ct[1][1], sk[1]), (bytes(c), bytes(n)), (b"\xff" * c, b"\xff" * n), (R.randbytes(c), sk[0]), (ct[0][0], R.randbytes(n))])
    return U
class World:
    """Libraries of one process with addresses for the buffers of calls."""
    def __init__(self, U): self.U, self.libs, self.keep, self.bufs = U, {}, [], {}
    def fn(self, impl, k, op):
        if (impl, k) not in self.libs: self.libs[impl, k] = kyb.Lib(impl, k)
        return C.cast(self.libs[impl, k].f[FN[op]], C.c_void_p).value
    def mem(self, n, name=None):
        if name is not None:
            if name not in self.bufs: self.bufs[name] = self.mem(0)
            return self.bufs[name]
        b = C.create_string_buffer(3300 + 64); self.keep.append(b); self.n = getattr(self, "n", 0) + 7; return C.addressof(b) + self.n % 64
    def call(self, impl, k, op, item, buf="move", prev=None):
        c = Call(); c.kind = KIND[op]; c.fn = self.fn(impl, k, op); o = outs(op, k); no = len(o); args = self.U[k][op][1][item]
        free = [prev.a[i] for i in range(2) if prev is not None and prev.outlen[i]] if buf == "chain" and prev is not None else []
        for i, n in enumerate(o):
            c.outlen[i] = n; c.a[i] = self.mem(n, f"o{i}" if buf == "reuse" else None)
        for i, b in enumerate(args):
            if buf == "share" and b in self.bufs: c.a[no + i] = self.bufs[b]; continue       # one buffer per content, nobody may write to it
            if free: p = free.pop()
            else: p = self.mem(len(b), f"i{i}" if buf == "reuse" else None)
            C.memmove(p, b, len(b)); c.a[no + i] = p
            if buf == "share": self.bufs[b] = p
        c._id = (impl, op, k, item); return c
# -------------------------------------------------------------- experiments
# every job returns a list of events (b / e, activation, call, status, digest)
def evs(cs): return [x for i, c in enumerate(cs) for x in (("b", i, c._id), ("e", i, c.st, c.digest))]
def alone(U, impl, k, op, items):
    """Each call in a process of its own."""
    out = []
    for it in items:
        r, w = os.pipe(); pid = os.fork()
        if pid == 0:
            try:
                W = World(U); c = W.call(impl, k, op, it); drv().one(C.byref(c)); os.write(w, json.dumps([c.st, c.digest]).encode())
            finally: os._exit(0)
        os.close(w); d = b""
        while True:
            x = os.read(r, 4096)
            if not x: break
            d += x
        os.close(r); _, st = os.waitpid(pid, 0)
        if st: os.kill(os.getpid(), os.WTERMSIG(st) or 9)
        s, g = json.loads(d); out += [("b", it, (impl, op, k, it)), ("e", it, s, g)]
    return out
def pick(R, U, k, op, rel, last):
    near, al = U[k][op]
    if rel == "same" and last is not None: return last
    if rel == "near": return R.randrange(len(near))
    return R.randrange(len(al))
def chain(R, W, steps, libs):
    """Calls for a generated chain."""
    cs, last, prev = [], {}, None
    for s in steps:
        i, k = R.choice(libs); it = pick(R, W.U, k, s["op"], s["rel"], last.get((k, s["op"]))); last[k, s["op"]] = it
        cs.append(lambda i=i, k=k, s=s, it=it, prev=None: (i, k, s["op"], it, s["buf"]))
    return [c() for c in cs]
def history(U, seed, behs, libs):
    R = random.Random(seed); W = World(U); out = []; n = 0; prev = None
    for steps in behs:
        for i, k, op, it, buf in chain(R, W, steps, libs):
            c = W.call(i, k, op, it, buf, prev); drv().one(C.byref(c)); prev = c
            out += [("b", n, c._id), ("e", n, c.st, c.digest)]; n += 1
    return out
def sweep(U, impl, k, op):
    """Every call that differs from the first in one field, right after it and right before it."""
    W = World(U); out = []; n = 0; near = range(1, len(U[k][op][0]))
    for it in [x for y in near for x in (0, y)] + [0]:
        c = W.call(impl, k, op, it, "reuse"); drv().one(C.byref(c)); out += [("b", n, c._id), ("e", n, c.st, c.digest)]; n += 1
    return out
def length(U, impl, k, op):
    """The same call twice, the first of the process: how long, and from where to where it executes other instructions."""
    W = World(U); o = W.call(impl, k, op, 0); n = 1 << 22; ln = [0, 0]; pcs = [np.zeros(n, np.uint64) for _ in (0, 1)]; out = []
    for j in (0, 1):
        ln[j] = drv().stepped(C.byref(o), None, None, 0, None, pcs[j].ctypes.data, n); out += [("b", j, o._id), ("e", j, o.st, o.digest)]
    a, b = min(ln[0], n), min(ln[1], n); m = min(a, b); d = np.nonzero(pcs[0][:m] != pcs[1][:m])[0]; lo = int(d[0]) if len(d) else m
    e = np.nonzero(pcs[0][a - m:a][::-1] != pcs[1][b - m:b][::-1])[0]; hi = a - int(e[0]) if len(e) else a
    return (impl, k, op), ln[0], (lo, max(lo, hi) if a != b or len(d) else lo), out
def preempted(U, seed, steps, libs, npt, totals):
    """The first call, single-stepped, with the other calls of the chain (repeated) inside it."""
    R = random.Random(seed); W = World(U); ch = chain(R, W, steps, libs)
    i, k, op, it, _ = ch[0]; o = W.call(i, k, op, it); drv().one(C.byref(o))
    total = totals[i, k, op]; out = [("b", "w", o._id), ("e", "w", o.st, o.digest)]
    share = R.choice(["move", "share"]); mode = R.randrange(3); lo = R.randrange(total) if mode else 0; hi = min(total, lo + R.choice([200, 1000, 5000, 30000])) if mode else total
    pts = sorted(R.randrange(lo, max(lo + 1, hi)) for _ in range(npt)); inner = (Call * npt)(); ids = []
    bl = [x for x in ch[1:]] or ch
    for j in range(npt):
        a = bl[j % len(bl)]
        if R.random() < .5: a = (i, k, op, R.randrange(len(U[k][op][1])), "move")      # the same operation of the same library
        c = W.call(*a[:4], share); ids.append(c._id); inner[j] = c
    o2 = W.call(i, k, op, it, share); P = (C.c_uint64 * npt)(*pts); drv().stepped(C.byref(o2), inner, P, npt, None, None, 0); m = drv().reached()
    out += [("b", "o", o2._id)] + [x for j in range(m) for x in (("b", j, ids[j]), ("e", j, inner[j].st, inner[j].digest))] + [("e", "o", o2.st, o2.digest)]
    return out, dict(total=total, points=m)
class Fork(C.Structure): _fields_ = [("st_in", C.c_int), ("st_out", C.c_int), ("how", C.c_int), ("pad", C.c_int), ("i", C.c_uint64), ("o", C.c_uint64)]
def first_use(U, impl, k, op, total, lo, hi, npt, seed):
    """The very first call of a process, with another call made in forks of the process at many points inside it.
    Where the first call executes other instructions than the second one, the points are dense."""
    R = random.Random(f"first/{impl}/{k}/{op}/{seed}"); W = World(U)
    pts = {R.randrange(total) + 1 for _ in range(npt)} | {1 + x for x in (range(lo, hi) if hi - lo < 4 * npt else [R.randrange(lo, hi) for _ in range(4 * npt)])}
    pts = sorted(pts); N = len(pts); inner = (Call * N)(); P = (C.c_uint64 * N)(*pts); m = mmap.mmap(-1, C.sizeof(Fork) * N); F = (Fork * N).from_buffer(m); ids = []; keep = {}
    for j in range(N):
        q = op if R.random() < .4 else R.choice(list(KIND)); it = R.randrange(min(4, len(U[k][q][1])))
        if (q, it) not in keep: keep[q, it] = W.call(impl, k, q, it)
        inner[j] = keep[q, it]; ids.append(keep[q, it]._id)
    o = W.call(impl, k, op, 0); drv().stepped(C.byref(o), inner, P, N, F, None, 0); out = [("b", "o", o._id), ("e", "o", o.st, o.digest)]
    for j in range(drv().reached()):
        f = F[j]
        if f.how & 127 == 14: continue           # waits for the interrupted call: a lock, which threads may share
        if f.how & 127: os.kill(os.getpid(), f.how & 127)
        if f.how: out += [("b", f"o{j}", o._id), ("b", j, ids[j]), ("e", f"o{j}", -1000, f.how)]      # it died
        else: out += [("b", f"o{j}", o._id), ("b", j, ids[j]), ("e", j, f.st_in, f.i), ("e", f"o{j}", f.st_out, f.o)]
    return out, dict(forks=drv().reached(), window=hi - lo)
def threaded(U, seed, libs, per, nt=8):
    R = random.Random(seed); W = World(U); cs = (Call * (per * nt))(); ids = []
    op = R.choice(list(KIND) + [None]); share = R.choice(["move", "share"]); few = share == "share" and R.random() < .5
    for t in range(nt):
        for j in range(per):
            i, k = R.choice(libs); p = op or R.choice(list(KIND)); it = R.randrange(2 if few else len(U[k][p][1]))
            c = W.call(i, k, p, it, share); ids.append(c._id); cs[t * per + j] = c
    if drv().threads(cs, per, nt): raise RuntimeError("threads")
    ev = []
    for n, c in enumerate(cs): ev += [(c.t0, 0, n), (c.t1, 1, n)]
    return [("b", n, ids[n]) if not z else ("e", n, cs[n].st, cs[n].digest) for _, z, n in sorted(ev)]
def repeated(U, seed, impl, k, op, reps):
    R = random.Random(seed); W = World(U); cs = (Call * 3)(); n = len(U[k][op][1]); its = [0, n - 5 if op == 'dec' else R.randrange(n), 1]; F = (C.c_uint64 * 3)()
    keep = [W.call(impl, k, op, it) for it in its]
    for j in range(3): cs[j] = keep[j]
    r = drv().many(cs, 3, reps, F); out = []
    for j in range(3): out += [("b", j, keep[j]._id), ("e", j, 0, F[j])]
    if r >= 0: c = cs[r % 3]; out += [("b", r, keep[r % 3]._id), ("e", r, c.st, c.digest)]
    return out
MC = [("once", False), ("once0", True), ("warm", True), ("own", True), ("static0", True), ("static", False), ("cache", False), ("count2", True), ("count", False)]
def c15(ctx):
    build.build_all(modes=("real",)); build.cc(f"{build.outdir()}/pure_drv.so", [f"{build.HERE}/pure_drv.c"], ["-O2", "-pthread"])
    for n, good in MC:
        r = ctx.tlc(tlc.run("Purity", f"Purity_{n}.cfg", workers=4))
        if r["ok"] != good: raise RuntimeError(f"Purity_{n}: unexpected verdict\n" + r["out"])
    r, bs = tlc.behaviours("PurityGen", "PurityGen.cfg", workers=8, extra=["-simulate", f"num={ctx.pick(60, 600)}", "-depth", "27", "-seed", str(ctx.rnd.randrange(1 << 40))])
    ctx.add("behaviours_generated", len(bs)); ctx.sample(bs[0][:6] if bs else None)
    B = eng.gather(ctx, [(bases, k, ctx.seed) for k in (2, 3, 4)], "C15 base arguments")
    if ctx.viol: return
    U = {k: universe(k, b, ctx.seed) for k, b in zip((2, 3, 4), B)}
    L = [(i, k) for i in ("ref", "avx2") for k in (2, 3, 4)]
    ops = list(KIND)
    jobs = [(alone, U, i, k, op, list(range(len(U[k][op][1]))) * 2) for i, k in L for op in ops]
    A = eng.gather(ctx, jobs, "C15 calls in processes of their own")
    if ctx.viol: return
    first = eng.flat(A); ctx.add("calls_alone", len(first) // 2)
    rd = 0
    while True:
        R = random.Random(f"c15/{ctx.seed}/{rd}"); R.shuffle(bs)
        def some(): return R.choice([[R.choice(L)], R.sample(L, 2), R.sample(L, 3), L])
        J = [(repeated, U, f"r{rd}/{i}/{k}/{op}", i, k, op, ctx.pick(66000, 140000 if rd else 270000)) for i, k in sorted(L, key=lambda x: (x[0] == "avx2", -x[1])) for op in ops] if rd == 0 or ctx.thorough and rd < 3 else []
        nh = len(bs) // 2
        J += [(history, U, f"h{rd}/{j}", bs[j:j + 8], some()) for j in range(0, nh, 8)]
        if rd == 0:
            J += [(sweep, U, i, k, op) for i, k in L for op in ops]
            tl = eng.gather(ctx, [(length, U, i, k, op) for i, k in L for op in ops], "C15 stepped calls")
            if ctx.viol: return
            totals = {x: n for x, n, _, _ in tl}; win = {x: w for x, _, w, _ in tl}; first += eng.flat(e for _, _, _, e in tl)
        pre = [(preempted, U, f"p{rd}/{j}", b, [L[j % 6]] + [L[j % 6]] * 6 + some(), 240, totals) for j, b in enumerate(bs[nh:])][:ctx.pick(96, 400)]
        res = eng.gather(ctx, J, "C15 histories")
        ctx.cov.setdefault("phase_s", []).append(round(ctx.budget() - ctx.left()))
        X = [(i, k, op) for i, k in sorted(L, key=lambda x: -x[1]) for op in ops]
        fu = eng.gather(ctx, [(first_use, U, *x, totals[x], *win[x], ctx.pick(40, 600), f"{ctx.seed}/{rd}") for x in X if ctx.thorough or x[1] == 2 or win[x][1] > win[x][0]], "C15 first calls of a process")
        if ctx.viol: return
        ctx.add("forks_in_first_calls", sum(s["forks"] for _, s in fu)); ctx.cov["first_call_windows"] = sum(s["window"] for _, s in fu); res += [t for t, _ in fu]
        ctx.cov.setdefault("phase_s", []).append(round(ctx.budget() - ctx.left()))
        rp = eng.gather(ctx, pre, "C15 preempted calls")
        ctx.cov.setdefault("phase_s", []).append(round(ctx.budget() - ctx.left()))
        rt = eng.gather(ctx, [(threaded, U, f"t{rd}/{j}", [L[j % 6]] if j % 3 else some(), 250) for j in range(ctx.pick(12, 60))], "C15 threads", procs=1)
        ctx.cov.setdefault("phase_s", []).append(round(ctx.budget() - ctx.left()))
        if ctx.viol: return
        ctx.add("instructions_stepped", sum(s["total"] for _, s in rp)); ctx.add("preemptions", sum(s["points"] for _, s in rp))
        ctx.add("calls_on_threads", sum(len(t) // 2 for t in rt)); ctx.add("calls_in_histories", sum(len(t) // 2 for t in res)); ctx.add("calls_repeated", sum(j[-1] for j in J if j[0] is repeated))
        judge(ctx, first, [t for t in res] + [t for t, _ in rp] + rt)
        rd += 1
        if not ctx.thorough or ctx.viol or ctx.left() < 240: return
def judge(ctx, first, runs):
    """PurityTrace over all runs, each trace beginning with the calls alone."""
    cid, rid = {}, {}
    def conv(run, tag):
        out = []
        for e in run:
            a = f"{tag}/{e[1]}"
            if e[0] == "b": out.append(dict(op="b", a=a, call=cid.setdefault(e[2], len(cid) + 1), note=str(e[2])))
            else: out.append(dict(op="e", a=a, res=rid.setdefault((e[2], e[3]), len(rid) + 1)))
        return out
    head = conv(first, "alone"); _, _, f = tlc.trace_check("PurityTrace", [head], procs=1)
    if f:
        i = f[0][1]; ctx.violation(f"C15 purity: call {head[i - 1].get('note')} gives two results in processes of its own", dict(event=head[i], before=head[max(0, i - 3):i + 1])); return
    runs = sorted((conv(r, n) for n, r in enumerate(runs)), key=len, reverse=True)
    ts = [list(head) for _ in range(8)]
    for r in runs: min(ts, key=len).extend(r)
    ts = [t for t in ts if len(t) > len(head)]
    ctx.cov["traces_validated_against_impl"] += len(runs)
    s, t, fails = tlc.trace_check("PurityTrace", ts, timeout=900)
    ctx.cov["states"] += s; ctx.cov["transitions"] += t
    for j, idx, out in fails:
        e = ts[j][idx]; tag = e["a"].split("/")[0]
        mine = [x for x in ts[j] if x["a"].split("/")[0] == tag]; _, _, f2 = tlc.trace_check("PurityTrace", [head + mine], procs=1)
        if f2:
            b = next(x for x in mine if x["op"] == "b" and x["a"] == e["a"]); i = mine.index(e)
            ctx.violation(f"C15 purity: call {b['note']} returned something else than alone", dict(event=e, call=b, before=mine[max(0, i - 40):i + 1]))
