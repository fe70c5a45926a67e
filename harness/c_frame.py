"""C16: calls keep to their buffers."""
import ctypes as C, random
import build, c_kem, eng, kyb, san, scen, tlc, trace
from c_hash import num
from kyb import CT, PAGE, PK, SK, libc
IMPLS = ("ref", "avx2"); PAIRS = [(i, k) for k in (4, 3, 2) for i in IMPLS]
class Room:
    """A few pages between inaccessible ones; a buffer is put at either end of them."""
    def __init__(self, pages=2):
        self.size = pages * PAGE; base = libc.mmap(None, (pages + 2) * PAGE, 0, 0x22, -1, 0); self.lo = base + PAGE
        libc.mprotect(self.lo, self.size, 3)
    def put(self, n, side, shift, fill, data):
        libc.mprotect(self.lo, self.size, 3); self.fill = fill; self.n = n; self.data = data
        C.memset(self.lo, fill, self.size)
        self.off = shift if side == "start" else self.size - n - shift; self.addr = self.lo + self.off
        if data is not None: C.memmove(self.addr, data, n); libc.mprotect(self.lo, self.size, 1)
    def get(self): return C.string_at(self.addr, self.n)
    def changed(self):
        """1: something outside the buffer changed; 2: the input itself."""
        b = C.string_at(self.lo, self.size); f = bytes([self.fill])
        r = 0 if b[:self.off] == f * self.off and b[self.off + self.n:] == f * (self.size - self.off - self.n) else 1
        return r + (2 if self.data is not None and self.get() != self.data else 0)
def calls(b, R):
    """(op, inputs, tape) of honest and dishonest calls of one parameter set."""
    k = b.k; c = R.randbytes(64); _, pk, sk = b.keypair_derand(c); m = R.randbytes(32); _, ct, _ = b.enc_derand(pk, m)
    bad = scen.mutate(R, ct); P, S = scen.malformed_pk(R, k), scen.malformed_sk(R, k)
    return [(0, [c], b""), (1, [pk, m], b""), (1, [P, m], b""), (2, [ct, sk], b""), (2, [bad, sk], b""), (2, [R.randbytes(CT[k]), S], b""), (3, [], c), (4, [pk], m)]
def native_job(impl, k, behs, seed):
    R = random.Random(f"frame/{impl}/{k}/{seed}"); b = kyb.get(impl, k); rooms = [Room() for _ in range(4)]; out = []
    names = trace.OPS; cs = []; ids = {}
    for j, beh in enumerate(behs):
        if j % 40 == 0: cs = calls(b, R)
        n = R.randrange(len(cs)); op, ins, tape = cs[n]; fr = trace.frame(op, k); it = iter(ins)
        for (sz, isin), rm, pl in zip(fr, rooms, beh): rm.put(sz, pl["side"], pl["shift"], R.choice([0, 255, 0xA5, 0x5A]), next(it) if isin else None)
        if tape: b.tape(tape)
        b.paint(); st = b.f[names[op]](*[C.c_void_p(r.addr) for r in rooms[:len(fr)]])
        o = b"".join(rm.get() for (sz, isin), rm in zip(fr, rooms) if not isin)
        # op 3/4 with tape t is the call 0/1 with t as coins
        key = (op % 3 if op > 2 else op, b"".join(ins) + tape if op != 4 else ins[0] + tape)
        out.append(dict(kind="native", op=names[op], k=k, impl=impl, st=st, call=ids.setdefault(key, len(ids) + 1), res=num(o), sizes=[f[0] for f in fr],
                        changed=[rm.changed() for _, rm in zip(fr, rooms)], note=str([(p["side"], p["shift"]) for p in beh[:len(fr)]])))
    return [dict(op="reset")] + out
def traced_job(impl, k, behs, seed, var=""):
    """The same, every access recorded, buffers at arbitrary addresses inside memory that is not the callee's."""
    R = random.Random(f"framet/{impl}/{k}/{seed}"); b = kyb.get(impl, k); x = trace.exe(impl, k, var); cs = calls(b, R); recs, ops, ev = [], [], []
    for j, beh in enumerate(behs):
        op, ins, tape = cs[j % len(cs)]; fr = trace.frame(op, k); it = iter(ins); args = [next(it) if isin else None for _, isin in fr]
        offs = [(p["shift"] if p["side"] == "start" else 4096 - p["shift"]) + 64 for p in beh]
        recs.append(trace.record(op, args, k, offs, tape=tape, fill=R.choice([0, 255, 0xA5]))); ops.append(op)
        ev.append(dict(kind="traced", op=trace.OPS[op], k=k, impl=impl, call=j % len(cs), sizes=[f[0] for f in fr], note=str(offs[:len(fr)]), offs=offs))
    rc, ws, res = trace.run(x, k, ops, b"".join(recs))
    if res is None: eng.died(rc); raise RuntimeError(f"tracer failed: {rc} {len(ws)}")
    for e, w, r in zip(ev, ws, res):
        e["st"] = r[0]; n = len(e["sizes"]); offs = e.pop("offs"); ins = [i for _, i in trace.frame(trace.OPS.index(e["op"]), k)]
        rel = lambda S: [[[a - offs[i], z - offs[i]] for a, z in S.get(i, [])] for i in range(n)]
        e["loads"], e["stores"], e["accesses"] = rel(w["L"]), rel(w["S"]), w["nl"] + w["ns"]
        e["res"] = num(b"".join(r[2][i][1] for i in range(n) if not ins[i]))
    return [dict(op="reset")] + ev
def checked_job(impl, k, seed, n):
    """The calls in the program that checks every access against the objects there are, the callee's own included;
    each twice, over stacks and outputs that held different bytes, and once in the library."""
    R = random.Random(f"frames/{impl}/{k}/{seed}"); b = kyb.get(impl, k); x = san.exe(impl, k); recs, ev, out = [], [], [dict(op="reset")]
    cs = [c for _ in range((n + 7) // 8) for c in calls(b, R)]
    for j, (op, ins, tape) in enumerate(cs):
        fr = trace.frame(op, k); it = iter(ins); args = [next(it) if isin else sz for sz, isin in fr]; sizes = [f[0] for f in fr]
        for _ in range(2):
            v, al = R.randrange(256), R.randrange(32); recs.append((san.rec(op, args, v, al, tape), sizes))
            ev.append((dict(kind="checked", op=trace.OPS[op], k=k, impl=impl, call=j, sizes=sizes, note=f"align={al}"), args))
    res, rep = san.perform(x, recs)
    for (e, args), (st, bs) in zip(ev, res):
        out.append(dict(e, st=st, clean=1, changed=[0 if isinstance(a, int) or a == o else 2 for a, o in zip(args, bs)], res=num(b"".join(o for a, o in zip(args, bs) if isinstance(a, int)))))
    if rep: out.append(dict(ev[len(res)][0], st=0, clean=0, changed=[], res=0, note=rep))
    else:
        for j, (op, ins, tape) in enumerate(cs):
            if tape: b.tape(tape)
            st, *o = getattr(b, trace.OPS[op])(*ins); sizes = [f[0] for f in trace.frame(op, k)]
            out.append(dict(kind="native", op=trace.OPS[op], k=k, impl=impl, call=j, sizes=sizes, st=st, changed=[], res=num(b"".join(o)), note="library"))
    return out
def checked_bulk(impl, k, kind, seed, n, per=16):
    """Very many calls over oracle answers of every style, checked; and the same calls by the library."""
    b = kyb.get(impl, k, "orc"); op = ("keypair_derand", "enc_derand", "dec")[kind]; sizes = [f[0] for f in trace.frame(trace.OPS.index(op), k)]; sd = random.Random(f"cb/{impl}/{k}/{kind}/{seed}").randrange(1 << 50); out = [dict(op="reset")]
    got, rep = san.bulk(san.bulk_exe(impl, k), kind, sd, per, n)
    if any(f for _, _, f in got): return []
    ev = lambda i, **a: dict(kind="checked", op=op, k=k, impl=impl, call=i, sizes=sizes, st=0, clean=1, changed=[], res=0, note=f"bulk seed={sd}+{i} per={per}") | a
    for i, (d, st, _) in enumerate(got): out.append(ev(i, res=d, st=st))
    if rep: return out + [ev(len(got), clean=0, note=f"bulk seed={sd}+{len(got)} per={per}: {rep}")]
    a, LL = c_kem.libs_((impl,), k, "orc"); d = (C.c_uint32 * 1)(); st = (C.c_int32 * 1)(); df = (C.c_uint8 * 8200)(); w = C.c_int32(-1); D = c_kem.drv()
    for i in range(0, len(got), 4):
        D.bulk(LL, 1, k, kind, C.c_uint64(sd + i), C.c_long(1), per, d, st, df, C.byref(w))
        if b.foreign(): return []
        out.append(ev(i, kind="native", res=d[0], st=st[0]))
    return out
def c16(ctx):
    [san.objs(*p) for p in PAIRS]; [san.bulk_objs(*p) for p in PAIRS]; ow = eng.worlds(ctx, impls=("avx2", "ref")); trace.trc(); build.pmap(lambda p: trace.exe(*p), PAIRS); build.pmap(lambda p: san.exe(*p), PAIRS); build.helper("bulk_drv", ["bulk_drv.c"])
    bx = dict(zip(PAIRS, build.pmap(lambda p: san.bulk_exe(*p), PAIRS)))
    r = ctx.tlc(tlc.run("Frame", "Frame_mc.cfg", workers=4))
    if not r["ok"]: raise RuntimeError(r["out"][-2000:])
    rd = 0
    while True:
        r, bs = tlc.behaviours("Frame", "Frame_gen.cfg", workers=8, extra=["-simulate", f"num={ctx.pick(600, 4000)}", "-depth", "6", "-seed", str(ctx.rnd.randrange(1 << 40))])
        ctx.tlc(r); ctx.add("placements", len(bs)); ctx.sample(dict(placement=bs[0]))
        per = ctx.pick(1, 2); nt = ctx.pick(8, 24)
        tjobs = [(traced_job, i, k, bs[(7 * j + n) % 50:][:nt], f"{ctx.seed}/{rd}/{j}") for n, (i, k) in enumerate(sorted(PAIRS)) for j in range(per)]
        tjobs.sort(key=lambda t: (t[1] == "avx2", -t[2]))
        njobs = [(native_job, i, k, bs[j::4] if not rd else [ctx.rnd.choice(bs) for _ in range(len(bs) // 4)], f"{ctx.seed}/{rd}/{j}") for j in range(4) for i, k in PAIRS]
        cjobs = [(checked_job, i, k, f"{ctx.seed}/{rd}", ctx.pick(64, 400)) for i, k in PAIRS]
        cjobs += [(checked_bulk, i, k, kind, f"{ctx.seed}/{rd}", ctx.pick(400, 2500)) for i, k in PAIRS for kind in range(3) if bx[i, k] and (i, k) in ow]
        tr = [t for t in eng.gather(ctx, tjobs + cjobs + njobs, "C16 frame") if t]
        ctx.add("traced_calls", sum(e.get("kind") == "traced" for t in tr for e in t)); ctx.add("checked_calls", sum(e.get("kind") == "checked" for t in tr for e in t)); ctx.add("native_calls", sum(e.get("kind") == "native" for t in tr for e in t))
        ctx.add("accesses_checked", sum(e.get("accesses", 0) for t in tr for e in t))
        if tr: ctx.sample({a: b for a, b in tr[0][1].items()})
        eng.judge(ctx, None, "Frame", what="C16 frame", traces=[eng.flat(tr[j::8]) for j in range(8) if tr[j::8]])
        rd += 1
        if not ctx.thorough or ctx.viol or ctx.left() < 120: return
