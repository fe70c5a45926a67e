"""Checks of the KEM operations: C01-C10, C14."""
import ctypes as C, hashlib, random
import numpy as np
import alg, build, eng, kyb, scen, sysrun, tlc
from kyb import PK, SK, CT
from scen import IMPLS, KS
PAIRS = [(i, k) for k in (4, 3, 2) for i in IMPLS]

# ------------------------------------------------------------- generic event jobs
def ev_job(gen, impl, k, mode, seed, n):
    """n rounds of generator gen(b, R) -> list of events."""
    R = random.Random(f"{gen.__name__}/{impl}/{k}/{mode}/{seed}"); b = kyb.get(impl, k, mode); out = []
    for _ in range(n): out += gen(b, R)
    return out
def ev_jobs(ctx, gen, mode, per, pairs=None, chunks=1):
    """per rounds for every (impl, k) pair."""
    pairs = PAIRS if pairs is None else pairs
    per = max(1, per); chunks = min(chunks, per)
    return [(ev_job, gen, i, k, mode, f"{ctx.seed}/{c}", (per + c) // chunks) for c in range(chunks) for i, k in PAIRS if (i, k) in pairs]
def campaign(ctx, plan, what):
    """plan: list of (gen, mode, per); gathers the events and validates them against KemTrace."""
    ow = eng.worlds(ctx) if any(m == "orc" for _, m, _ in plan) else (build.build_all(modes=("real",)), set())[1]
    jobs = []
    for gen, mode, per in plan:
        jobs += ev_jobs(ctx, gen, mode, per, ow if mode == "orc" else PAIRS, chunks=ctx.pick(2, 8))
        jobs += [(ev_job, gen, "model", k, mode, f"{ctx.seed}/m", max(1, per // 12)) for k in KS if mode == "real" or ("model", k) in ow]
    evs = eng.flat(eng.gather(ctx, jobs, what))
    for e in evs: ctx.add(f"events_{e['op']}_{'oracle' if 'tbl' in e else 'real'}")
    for e in evs[:2] + evs[-2:]: ctx.sample({x: (str(bytes(v).hex())[:64] if isinstance(v, list) and x not in ("tbl",) else v) for x, v in e.items() if x != "tbl"})
    eng.judge(ctx, evs, what=what)
    return evs
def repeat_campaign(ctx, plan, what):
    """Thorough tier: campaigns with fresh seeds until the time budget is used."""
    campaign(ctx, plan, what)
    s0 = ctx.seed
    while ctx.thorough and ctx.left() > 60 and not ctx.viol:
        ctx.seed = f"{ctx.seed}+"; campaign(ctx, plan, what)
    ctx.seed = s0

def lemmas(ctx):
    r = ctx.tlc(tlc.run("SpecLemmas"))
    if not r["ok"]: raise RuntimeError("the specification's own lemmas fail\n" + r["out"][-2000:])
    ctx.add("spec_lemmas", r["distinct"] - 1)

# --------------------------------------------------------------- KemSystem
def system(ctx, cfg, num, depth, impls=IMPLS, mode="real", what="KemSystem", bfs=False):
    """Behaviours generated by TLC from KemSystem, performed on the code, judged by SystemTrace."""
    if bfs: r, bs = tlc.behaviours("KemSystem", cfg, workers=8, timeout=900)
    else: r, bs = tlc.behaviours("KemSystem", cfg, workers=8, timeout=900, extra=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(int(hashlib.sha256(f"{ctx.prop}/{ctx.seed}".encode()).hexdigest()[:12], 16))])
    if not r["ok"]: raise RuntimeError("KemSystem violates its own invariants\n" + r["out"])
    ctx.tlc(r)
    uniq = {}
    for b in bs: uniq[str(b)] = b
    bs = list(uniq.values())
    ctx.rnd.shuffle(bs)
    if bfs and not ctx.thorough: bs = bs[:5000]
    ctx.sample(dict(behaviour=bs[0]))
    for i in range(0, len(bs), 8000):
        part = bs[i:i+8000]
        tr = eng.gather(ctx, [(sysrun.run_batch, part[j::8], f"{ctx.seed}/{i}/{j}", impls, mode) for j in range(8)], what)
        ctx.add("behaviours_replayed", len(part))
        eng.judge(ctx, None, "SystemTrace", what=what, traces=[t for t in tr if t])
        if ctx.viol: return

# ------------------------------------------------------------------ generators
def g_honest(b, R): return scen.real_ops(b, R)
def g_kg(b, R): return scen.real_ops(b, R, ("kg",))
def g_enc(b, R): return scen.real_ops(b, R, ("enc",))
def g_dec(b, R): return scen.real_ops(b, R, ("dec", "rej"))
def g_mal_enc(b, R):
    if b.mode == "orc": b.reset()
    return [scen.enc(b, scen.malformed_pk(R, b.k), scen.edge_bytes(R, 32), "malformed")[2]]
def g_mal_dec(b, R):
    if b.mode == "orc": b.reset()
    ct = scen.edge_bytes(R, CT[b.k]) if R.random() < .5 else R.randbytes(CT[b.k])
    return [scen.dec(b, scen.malformed_sk(R, b.k), ct, "malformed")[1]]
def g_orc_honest(b, R): b.reset(); return scen.real_ops(b, R)
def noise_for(R, k, op):
    n = 2*k if op == "kg" else 2*k + 1
    return {i: scen.noise_bytes(R, 64 * (alg.ETA1[k] if op == "kg" or i < k else 2)) for i in range(n)}
def g_orc_kg(b, R): return [scen.orc_keypair(b, R, "streams", xof=scen.matrix_streams(R, b.k), noise=noise_for(R, b.k, "kg"))[2]]
def g_orc_enc(b, R): return [scen.orc_enc(b, R, "streams", xof=scen.matrix_streams(R, b.k), noise=noise_for(R, b.k, "enc"))[2]]
def g_noise_kg(b, R): return [scen.orc_keypair(b, R, "noise", noise=noise_for(R, b.k, "kg"))[2]]
def g_noise_enc(b, R): return [scen.orc_enc(b, R, "noise", noise=noise_for(R, b.k, "enc"))[2]]
def g_arith(b, R): return scen.arith_ops(b, R)
def g_edge(b, R): return [scen.dec_edge(b, R, "edge")]
def g_exact(b, R):
    k = b.k
    return [scen.exact_enc(b, R, "exact", [scen.extreme_poly(R) for _ in range(k)], scen.rndpoly(R), m=scen.edge_bytes(R, 32), c=R.choice([1, -1]), p=R.randrange(256))[2]]
def g_full(b, R):
    """Honest decapsulation with chosen message: key, encapsulation, decapsulation, all queries programmed."""
    pk, sk, e1 = scen.orc_keypair(b, R, "chain", xof=scen.matrix_streams(R, b.k), noise=noise_for(R, b.k, "kg"))
    m = scen.edge_bytes(R, 32)
    b.program(72, 6, m + sk[768*b.k+32:768*b.k+64], R.randbytes(64))
    ct, ss, e2 = scen.enc(b, pk, m, "chain")
    ss2, e3 = scen.dec(b, sk, ct, "chain")
    _, e4 = scen.dec(b, sk, scen.mutate(R, ct), "chain-altered")
    return [e1, e2, e3, e4]

# ---------------------------------------------------------------------- checks
def c01(ctx):
    """Agreement."""
    build.build_all(modes=("real",))
    r = ctx.tlc(tlc.run("KemSystem", "KemSystem_deep.cfg", workers=8, timeout=900)) if ctx.thorough else None
    if r and not r["ok"]: raise RuntimeError(r["out"][-2000:])
    system(ctx, "KemSystem_bfs.cfg", 0, 0, bfs=True, what="C01 histories")
    system(ctx, "KemSystem_gen.cfg", ctx.pick(120, 4000), 17, what="C01 behaviours")
    if ctx.viol: return
    sessions(ctx, ctx.pick(6000, 50000))
    if ctx.viol: return
    bulk_campaign(ctx, (), 0, 0, "C01 sessions in bulk", sess=ctx.pick(100, 2000))
    if ctx.viol: return
    plan = [(g_honest, "real", ctx.pick(1, 4)), (g_full, "orc", ctx.pick(4, 30)), (g_edge, "orc", ctx.pick(6, 60))]
    repeat_campaign(ctx, plan, "C01 agreement")

def session_job(seed, n):
    """n key pairs with one encapsulation each, the three steps by random implementations."""
    R = random.Random(f"session/{seed}"); out = []
    for i in range(n):
        k = R.choice(KS); L = [kyb.get(R.choice(IMPLS), k) for _ in range(3)]
        st, pk, sk = L[0].keypair_derand(scen.edge_bytes(R, 32) + scen.edge_bytes(R, 32))
        st2, ct, ss = L[1].enc_derand(pk, scen.edge_bytes(R, 32)); st3, s2 = L[2].dec(ct, sk)
        out.append(dict(op="x", call=i, st=st | st2 | st3, res=int.from_bytes(ss[:3], "big") if ss == s2 else 1 << 25, k=k, impl="/".join(l.impl for l in L)))
        out.append(dict(op="x", call=i, st=st3, res=int.from_bytes(ss[:3], "big"), k=k, impl="enc"))
    return out
def sessions(ctx, n):
    tr = eng.gather(ctx, [(session_job, f"{ctx.seed}/{j}", n // 8) for j in range(8)], "C01 sessions")
    ctx.add("honest_sessions", n // 8 * 8)
    eng.judge(ctx, None, "PureTrace", what="C01 sessions", traces=tr)

# ---- very many calls, the specification's functions in C (model.c) being one of the libraries
class L_(C.Structure): _fields_ = [(n, C.c_void_p) for n in ("kp", "enc", "dec", "style", "reset")]
def drv():
    l = C.CDLL(build.helper("bulk_drv", ["bulk_drv.c"])); l.bulk.restype = l.sessions.restype = C.c_long; return l
def libs_(impls, k, mode):
    p = lambda f: C.cast(f, C.c_void_p).value
    a = [kyb.get(i, k, mode) for i in impls]
    return a, (L_ * len(a))(*[L_(p(b.f["keypair_derand"]), p(b.f["enc_derand"]), p(b.f["dec"]), *((p(b.l.orc_style), p(b.l.orc_reset)) if mode == "orc" else (None, None))) for b in a])
BULK = ("model", "ref", "avx2")
def bulk(kind, k, mode, seed, calls, per=64, impls=BULK):
    """Batches of calls as PureTrace events: every library's digest of a batch is the batch's result."""
    a, LL = libs_(impls, k, mode); n = max(1, calls // per); d = drv(); dig = (C.c_uint32 * (n * len(a)))(); st = (C.c_int32 * n)(); df = (C.c_uint8 * 8200)(); w = C.c_int32(-1)
    sd = int.from_bytes(hashlib.sha256(f"bulk/{kind}/{k}/{mode}/{seed}".encode()).digest()[:7], "big")
    d.bulk(LL, len(a), k, kind, C.c_uint64(sd), C.c_long(n), per, dig, st, df, C.byref(w)); out = [dict(op="reset")]; D = list(dig)
    foreign = mode == "orc" and any(b.foreign() for b in a)
    for i in range(n if not foreign else 0):
        for j, x in enumerate(impls): out.append(dict(op="x", call=i, st=st[i], res=D[i * len(a) + j], k=k, impl=x, note=f"kind {kind} {mode} n={per}"))
    if w.value >= 0 and not foreign:
        nm, ln = (("keypair_derand", [64]), ("enc_derand", [PK[k], 32]), ("dec", [CT[k], SK[k]]))[w.value]; b = bytes(df)
        x = next(e for i in range(n) for e in out[1 + i * len(a):1 + (i + 1) * len(a)] if e["res"] != out[1 + i * len(a)]["res"] or e["st"]); x["diff"] = dict(op=nm, inputs=[b[sum(ln[:i]):sum(ln[:i + 1])].hex() for i in range(len(ln))], style=b[-8:].hex() if mode == "orc" else "")
    return out
def bulk_sessions(k, mode, seed, n, impls=("ref", "avx2")):
    a, LL = libs_(impls, k, mode); x, y, st = (C.c_uint32 * n)(), (C.c_uint32 * n)(), (C.c_int32 * n)(); sd = int.from_bytes(hashlib.sha256(f"bs/{k}/{mode}/{seed}".encode()).digest()[:7], "big")
    drv().sessions(LL, len(a), k, C.c_uint64(sd), C.c_long(n), x, y, st); x, y, st = list(x), list(y), list(st)
    # sessions that end alike are one event pair per 16; a session that does not is one of its own
    out = [dict(op="reset")]; fold = lambda v: int.from_bytes(hashlib.sha256(str(v).encode()).digest()[:3], "big")
    for i in range(0, n, 16):
        z = 0
        for v in st[i:i + 16]: z |= v
        out += [dict(op="x", call=i, st=z, res=fold(v[i:i + 16]), k=k, impl=w, note=f"session {seed} {mode}") for v, w in ((x, "enc"), (y, "dec"))]
    return out
def bulk_campaign(ctx, kinds, real, orc, what, impls=BULK, sess=0):
    """real, orc: thousands of calls per parameter set and kind in each world."""
    ow = eng.worlds(ctx) if orc else (build.build_all(modes=("real",)), set())[1]; build.helper("bulk_drv", ["bulk_drv.c"])
    ks = [k for k in KS if all((i, k) in ow for i in impls)]; jobs = []
    for k in (4, 3, 2):
        for kind in kinds:
            for c in range(8):
                if real: jobs.append((bulk, kind, k, "real", f"{ctx.seed}/{c}", real * 125, 64, impls))
                if orc and k in ks: jobs.append((bulk, kind, k, "orc", f"{ctx.seed}/{c}", orc * 125, 16, impls))
        for c in range(8):
            if sess: jobs.append((bulk_sessions, k, "real", f"{ctx.seed}/{c}", sess * 125))
    tr = [t for t in eng.gather(ctx, jobs, what) if len(t) > 1]; sub = lambda q: sum(e.get("op") == "x" and q(e) for t in tr for e in t)
    ctx.add("bulk_calls_real", sub(lambda e: e.get("impl") == "avx2" and " real n" in e["note"]) * 64); ctx.add("bulk_calls_oracle", sub(lambda e: e.get("impl") == "avx2" and " orc n" in e["note"]) * 16)
    if sess: ctx.add("honest_sessions", sub(lambda e: e.get("impl") == "dec") * 16)
    if tr: ctx.sample(tr[0][1])
    eng.judge(ctx, None, "PureTrace", what=what, traces=[eng.flat(tr[j::8]) for j in range(8) if tr[j::8]])
def g_style(b, R):
    """Oracle world whose answers have a style: the queries are on record."""
    b.reset(); b.l.orc_style(C.c_uint64(R.randrange(1, 1 << 60)))
    try: return scen.real_ops(b, R, R.choice([("kg",), ("enc",), ("dec",), ("rej",)]))
    finally: b.l.orc_style(C.c_uint64(0))

# ---- C02
def weak(b, R):
    """A secret key with s = 0 and a public key with t = 0: the decrypted message does not
    depend on u, so a difference pattern on u is exactly a difference against the re-encryption."""
    k = b.k; pk = bytes(384*k) + R.randbytes(32); z = R.randbytes(32)
    sk = bytes(384*k) + pk + hashlib.sha3_256(pk).digest() + z
    st, ct, ss = b.enc_derand(pk, R.randbytes(32))
    return sk, ct, ss, z
def vmask(k):
    """Bits of the v part that may change without changing the decoded message of a weak key."""
    d, low = alg.DV[k], 3 if k == 4 else 2
    return alg.pack([(1 << low) - 1] * 256, d)
def classify(b, sk, ct0, ss0, z, ct):
    st, s = b.dec(ct, sk)
    nd = sum(x != y for x, y in zip(ct, ct0))
    cls = "acc" if s == ss0 else "rej" if s == hashlib.shake_256(z + ct).digest(32) else "oth"
    return dict(st=st, nd=nd, cls=cls, k=b.k, impl=b.impl)
LAYOUTS = ["eighths", "adjacent", "s4", "s8", "s16", "s32", "s64", "s128", "tail", "segments", "boundary", "head"]
def reject_patterns(impl, k, pats, seed):
    R = random.Random(f"pat/{impl}/{k}/{seed}"); b = kyb.get(impl, k); out = []
    n = CT[k]; nu = 32 * k * alg.DU[k]; vm = vmask(k)
    for j, p in enumerate(pats):
        if j % 400 == 0: sk, ct0, ss0, z = weak(b, R)
        lay = R.choice(LAYOUTS); kind = R.choice(["xor", "xor", "add", "bit"])
        a, c = R.sample(range(1, 256), 2)
        if kind == "bit": a, c = R.sample([1 << i for i in range(8)], 2)
        if kind == "add": c = 256 - a if a != 128 else 127
        if lay == "eighths": cells = [[R.randrange(i * nu // 8, (i + 1) * nu // 8)] for i in range(8)]
        elif lay == "adjacent": o = R.randrange(nu - 8); cells = [[o + i] for i in range(8)]
        elif lay[0] == "s" and lay[1:].isdigit():
            s = int(lay[1:]); o = R.randrange(max(1, nu - 8 * s)); cells = [[(o + i * s) % nu] for i in range(8)]
            if len({x[0] for x in cells}) < 8: cells = [[o + i] for i in range(8)]
        elif lay == "tail": cells = [[n - 8 + i] for i in range(8)]
        elif lay == "segments": cells = [list(range(i * nu // 8, (i + 1) * nu // 8)) for i in range(8)]
        elif lay == "boundary": cells = [[nu - 4 + i] for i in range(8)]
        else: cells = [[i] for i in range(8)]
        x = bytearray(ct0)
        for i, q in enumerate(p):
            if q:
                for o in cells[i]:
                    d = a if q == 1 else c
                    if o >= nu:
                        m = vm[o - nu]; d &= m
                        if not d: d = m & -m
                        x[o] ^= d
                    elif kind == "add": x[o] = (x[o] + d) & 255
                    else: x[o] ^= d
        out.append(dict(classify(b, sk, ct0, ss0, z, bytes(x)), p=p, lay=lay, kind=kind))
    return out
def reject_counts(impl, k, ns, seed):
    """n differing bytes for every n (a verdict accumulated in a narrow counter wraps)."""
    R = random.Random(f"cnt/{impl}/{k}/{seed}"); b = kyb.get(impl, k); out = []; nu = 32 * k * alg.DU[k]
    sk, ct0, ss0, z = weak(b, R)
    for n in ns:
        for kind in range(3):
            x = bytearray(ct0); d = R.randrange(1, 256)
            for o in (range(n) if kind == 0 else range(nu - n, nu) if kind == 1 else R.sample(range(nu), n)):
                x[o] ^= d if kind < 2 else R.randrange(1, 256)
            out.append(classify(b, sk, ct0, ss0, z, bytes(x)))
    return out
def reject_bits(impl, k, bits, seed):
    """Single-bit changes against a weak key (controlled) and an honest key."""
    R = random.Random(f"bit/{impl}/{k}/{seed}"); b = kyb.get(impl, k); out = []
    sk, ct0, ss0, z = weak(b, R)
    st, pk, hsk = b.keypair_derand(R.randbytes(64)); _, hct, hss = b.enc_derand(pk, R.randbytes(32))
    out.append(classify(b, sk, ct0, ss0, z, ct0)); out.append(classify(b, hsk, hct, hss, hsk[-32:], hct))
    for bit in bits:
        for (s, c, ss, zz) in ((sk, ct0, ss0, z), (hsk, hct, hss, hsk[-32:])):
            x = bytearray(c); x[bit >> 3] ^= 1 << (bit & 7); out.append(classify(b, s, c, ss, zz, bytes(x)))
    return out
def reject_random(impl, k, n, seed):
    R = random.Random(f"rnd/{impl}/{k}/{seed}"); b = kyb.get(impl, k); out = []
    for i in range(n):
        if i % 50 == 0:
            if R.random() < .5: sk, ct0, ss0, z = weak(b, R)
            else:
                st, pk, sk = b.keypair_derand(R.randbytes(32) + scen.edge_bytes(R, 32)); z = sk[-32:]
                _, ct0, ss0 = b.enc_derand(pk, scen.edge_bytes(R, 32))
        out.append(classify(b, sk, ct0, ss0, z, scen.mutate(R, ct0)))
    return out
def c02(ctx):
    """Implicit rejection."""
    build.build_all()
    r, pats = tlc.behaviours("RejectTrace", "RejectTrace_gen.cfg", workers=8)
    if not r["ok"]: raise RuntimeError(r["out"])
    ctx.tlc(r); ctx.add("difference_patterns", len(pats))
    rounds = ctx.pick(1, 6)
    for rd in range(rounds):
        ctx.rnd.shuffle(pats); jobs = []
        sub = pats if ctx.thorough else pats[:3300]
        for i, k in PAIRS:
            jobs += [(reject_patterns, i, k, sub[j::3], f"{ctx.seed}/{rd}/{j}") for j in range(3)]
            nu = 32 * k * alg.DU[k]
            ns = sorted(set(list(range(1, nu + 1, 1 if ctx.thorough else 7)) + [x for x in (255, 256, 257, 511, 512, 513, 768, 1024, 1280) if x <= nu]))
            jobs.append((reject_counts, i, k, ns, f"{ctx.seed}/{rd}"))
            allbits = list(range(8 * CT[k]))
            jobs.append((reject_bits, i, k, allbits if ctx.thorough else allbits[ctx.rnd.randrange(4)::4], f"{ctx.seed}/{rd}"))
            jobs.append((reject_random, i, k, ctx.pick(1500, 20000), f"{ctx.seed}/{rd}"))
        evs = eng.flat(eng.gather(ctx, jobs, "C02 rejection"))
        ctx.add("altered_ciphertexts", sum(e["nd"] > 0 for e in evs)); ctx.add("honest_ciphertexts", sum(e["nd"] == 0 for e in evs))
        ctx.sample(evs[0]); ctx.sample(evs[-1])
        eng.judge(ctx, None, "RejectTrace", what="C02 rejection", traces=[evs[j::8] for j in range(8)])
        if ctx.viol: return
    system(ctx, "KemSystem_gen1.cfg", ctx.pick(60, 3000), 13, what="C02 behaviours")
    if ctx.viol: return
    bulk_campaign(ctx, (2,), ctx.pick(100, 1500), ctx.pick(10, 150), "C02 rejection in bulk")
    if ctx.viol: return
    repeat_campaign(ctx, [(g_dec, "real", 1), (g_orc_rej, "orc", ctx.pick(6, 40)), (g_mal_dec, "orc", ctx.pick(4, 40))], "C02 rejection")
def g_orc_rej(b, R):
    """Altered ciphertexts in the oracle world: the J query and the whole re-encryption are on record."""
    b.reset(); pk, sk, _ = scen.keypair(b, R.randbytes(64)); ct, ss, _ = scen.enc(b, pk, R.randbytes(32))
    return [scen.dec(b, sk, scen.mutate(R, ct), "altered")[1] for _ in range(2)]

def c03(ctx):
    bulk_campaign(ctx, (0,), ctx.pick(250, 3000), ctx.pick(40, 500), "C03 key generation in bulk")
    if ctx.viol: return
    lemmas(ctx)
    repeat_campaign(ctx, [(g_kg, "real", ctx.pick(8, 40)), (g_orc_kg, "orc", ctx.pick(24, 150)), (g_noise_kg, "orc", ctx.pick(10, 60)), (g_style, "orc", ctx.pick(8, 60))], "C03 key generation")
def c04(ctx):
    bulk_campaign(ctx, (1,), ctx.pick(250, 3000), ctx.pick(40, 500), "C04 encapsulation in bulk")
    if ctx.viol: return
    repeat_campaign(ctx, [(g_enc, "real", ctx.pick(4, 20)), (g_mal_enc, "real", ctx.pick(4, 20)), (g_mal_enc, "orc", ctx.pick(16, 100)), (g_orc_enc, "orc", ctx.pick(16, 100)), (g_exact, "orc", ctx.pick(8, 60)), (g_style, "orc", ctx.pick(8, 60))], "C04 encapsulation")
def c05(ctx):
    bulk_campaign(ctx, (2,), ctx.pick(250, 3000), ctx.pick(40, 500), "C05 decapsulation in bulk")
    if ctx.viol: return
    repeat_campaign(ctx, [(g_dec, "real", ctx.pick(2, 10)), (g_mal_dec, "real", ctx.pick(2, 10)), (g_mal_dec, "orc", ctx.pick(14, 100)), (g_full, "orc", ctx.pick(4, 30)), (g_edge, "orc", ctx.pick(10, 60)), (g_splice, "orc", ctx.pick(8, 50)), (g_style, "orc", ctx.pick(8, 60))], "C05 decapsulation")
def g_splice(b, R):
    """Keys whose parts do not belong together, honest and foreign ciphertexts."""
    k = b.k; b.reset(); P = []
    for _ in range(2):
        pk, sk, _ = scen.keypair(b, R.randbytes(64)); P.append((pk, sk))
    parts = [sysrun.Runner.parts(k, s) for _, s in P]; mix = [parts[R.randrange(2)][i] for i in range(4)]
    if R.random() < .3: mix[0] = sysrun.raise12(mix[0], k)
    if R.random() < .3: mix[1] = sysrun.raise12(mix[1], k) + mix[1][-32:]
    if R.random() < .3: mix[2] = R.randbytes(32)
    sk = b"".join(mix); ct, ss, _ = scen.enc(b, P[R.randrange(2)][0], R.randbytes(32))
    return [scen.dec(b, sk, ct, "spliced")[1]]

# ---- C06
def bulk_job(kind, k, seed, n, mode="real"):
    """Lockstep run of both implementations; one event pair per batch of calls."""
    R = random.Random(f"lock/{kind}/{k}/{seed}"); A, B = kyb.get("ref", k, mode), kyb.get("avx2", k, mode)
    out, diff = [], None
    rng = np.random.default_rng(R.randrange(1 << 60))
    for batch in range(n):
        ha, hb = hashlib.sha256(), hashlib.sha256(); calls = []; st = 0
        for _ in range(25):
            calls += lock_calls(kind, k, R, rng, A)
            for nm, args in calls[-1:]:
                ra, rb = getattr(A, nm)(*args), getattr(B, nm)(*args)
                st |= ra[0] | rb[0]
                if ra != rb and diff is None: diff = (nm, [a.hex() for a in args], [x.hex() if isinstance(x, bytes) else x for x in ra], [x.hex() if isinstance(x, bytes) else x for x in rb])
                for h, r in ((ha, ra), (hb, rb)):
                    for x in r[1:]: h.update(x)
        e = dict(op="x", call=batch, st=st, k=k, note=kind, n=25)
        out.append(dict(e, impl="ref", res=int.from_bytes(ha.digest()[:3], "big")))
        out.append(dict(e, impl="avx2", res=int.from_bytes(hb.digest()[:3], "big")))
        if diff: out[-1]["diff"] = diff; break
    return out
def lock_calls(kind, k, R, rng, A):
    rb = lambda n: rng.bytes(n)
    if kind == "honest":
        if R.random() < .4 or not hasattr(A, "_keys"):
            c = rb(64); A._keys = A.keypair_derand(c)[1:]; return [("keypair_derand", (c,))]
        if R.random() < .5: return [("enc_derand", (A._keys[0], rb(32)))]
        ct = A.enc_derand(A._keys[0], rb(32))[1]
        return [("dec", (ct if R.random() < .6 else scen.mutate(R, ct), A._keys[1]))]
    if kind == "random":
        return [R.choice([("keypair_derand", (rb(64),)), ("enc_derand", (rb(PK[k]), rb(32))), ("dec", (rb(CT[k]), rb(SK[k])))])]
    # extreme: structured coefficients
    def vec(top=4096):
        c = R.randrange(4)
        if c == 0: return b"".join(alg.pack(scen.extreme_poly(R, top), 12) for _ in range(k))
        if c == 1: return b"".join(alg.pack(rng.choice(np.array(scen.EDGE12), 256), 12) for _ in range(k))
        if c == 2: return bytes([R.randrange(256)]) * (384*k)
        return rb(384*k)
    pk = vec() + rb(32)
    if R.random() < .4: return [("enc_derand", (pk, scen.edge_bytes(R, 32)))]
    ct = rb(CT[k]) if R.random() < .4 else scen.edge_bytes(R, CT[k]) if R.random() < .5 else b"".join(alg.pack(rng.choice(np.array([0, 1, (1 << alg.DU[k]) - 1, 1 << (alg.DU[k]-1), 511, 512]), 256), alg.DU[k]) for _ in range(k)) + rb(32 * alg.DV[k])
    return [("dec", (ct, vec() + pk + rb(32) + scen.edge_bytes(R, 32)))]
def lockstep(ctx, n, kinds=("honest", "random", "extreme"), what="lockstep"):
    jobs = [(bulk_job, kd, k, f"{ctx.seed}/{j}", n) for j in range(ctx.pick(2, 4)) for kd in kinds for k in (4, 3, 2)]
    tr = eng.gather(ctx, jobs, what)
    ctx.add("lockstep_calls", sum(e["n"] for t in tr for e in t) // 2)
    for t in tr: t.insert(0, dict(op="reset"))
    eng.judge(ctx, None, "PureTrace", what=what, traces=[eng.flat(tr[j::8]) for j in range(8)])
def orc_lock(k, seed, n):
    """The two implementations in the oracle world on streams real hashing would never give."""
    R = random.Random(f"orclock/{k}/{seed}"); A, B = kyb.get("ref", k, "orc"), kyb.get("avx2", k, "orc"); out = []
    for i in range(n):
        s = R.randrange(1 << 60); g = R.choice([g_orc_kg, g_orc_enc, g_arith, g_edge, g_exact, g_mal_dec, g_mal_enc])
        for b in (A, B):
            b.log = lambda: []          # only the results are needed here
            h = hashlib.sha256()
            for e in g(b, random.Random(s)):
                for f in ("pk", "sk", "ct", "ss"):
                    if f in e: h.update(bytes(e[f]))
            out.append(dict(op="x", call=i, st=e["st"], res=int.from_bytes(h.digest()[:3], "big") if not b.foreign() else 0, k=k, impl=b.impl, note=g.__name__ + "/" + str(s)))
    return out
def c06(ctx):
    ow = eng.worlds(ctx)
    system(ctx, "KemSystem_gen.cfg", ctx.pick(60, 2000), 17, what="C06 behaviours")
    if ctx.viol: return
    bulk_campaign(ctx, (0, 1, 2), ctx.pick(80, 1000), ctx.pick(12, 150), "C06 lockstep in bulk", impls=("ref", "avx2"))
    if ctx.viol: return
    rounds = 0
    while True:
        lockstep(ctx, ctx.pick(110, 800), what="C06 lockstep")
        if ctx.viol: return
        ks = [k for k in KS if ("ref", k) in ow and ("avx2", k) in ow]
        n = ctx.pick(60, 600)
        tr = eng.gather(ctx, [(orc_lock, k, f"{ctx.seed}/{rounds}/{j}", n) for j in range(3) for k in ks], "C06 oracle-world lockstep")
        ctx.add("oracle_world_lockstep_ops", sum(map(len, tr)) // 2)
        eng.judge(ctx, None, "PureTrace", what="C06 oracle-world lockstep", traces=tr)
        rounds += 1
        if not ctx.thorough or ctx.viol or ctx.left() < 60: break
        ctx.seed = f"{ctx.seed}+"

# ---- C07
def stream_of(R, beh):
    vals = []
    for blk in beh: vals += scen.stream_from_counts(R, [blk["n"]], {"ends": "rnd"}.get(blk["lay"], blk["lay"])) if blk["lay"] != "ends" else ends(R, blk["n"])
    return alg.xof_stream(scen.finish(R, vals))
def ends(R, n):
    pos = set(list(range((n + 1) // 2)) + list(range(112 - n // 2, 112)))
    return [scen.acc_val(R) if i in pos else scen.rej_val(R) for i in range(112)]
def mask_stream(R):
    """Every group of 8 candidates gets a chosen accept mask (table-driven compaction)."""
    vals = []; base = R.randrange(256); step = R.choice([1, 3, 85, 171, 255])
    for g in range(R.choice([42, 56, 70])):
        m = (base + g * step) & 255
        vals += [scen.acc_val(R) if m >> i & 1 else scen.rej_val(R) for i in range(8)]
    return alg.xof_stream(scen.finish(R, vals))
def long_stream(R, blocks):
    vals = [scen.rej_val(R) for _ in range(112 * blocks)]
    return alg.xof_stream(scen.finish(R, vals))
def matrix_job(impl, k, behs, seed, n):
    R = random.Random(f"mat/{impl}/{k}/{seed}"); b = kyb.get(impl, k, "orc"); out = []
    for i in range(n):
        def gen(R):
            c = R.random()
            if c < .55: return stream_of(R, R.choice(behs))
            if c < .75: return mask_stream(R)
            if c < .76: return long_stream(R, R.choice([4, 12, 20]))
            return scen.random_stream(R)
        xs = scen.matrix_streams(R, k, gen)
        if R.random() < .6: out.append(scen.orc_keypair(b, R, "matrix", xof=xs)[2])
        else: out.append(scen.orc_enc(b, R, "matrix", xof=xs)[2])
    return out
def c07(ctx):
    ow = eng.worlds(ctx)
    r = ctx.tlc(tlc.run("RejSampler", "RejSampler_mc.cfg", workers=8))
    if not r["ok"]: raise RuntimeError(r["out"][-2000:])
    first = True
    while first or (ctx.thorough and ctx.left() > 60 and not ctx.viol):
        r, bs = tlc.behaviours("RejSampler", "RejSampler_gen.cfg", workers=8, extra=["-simulate", f"num={ctx.pick(60, 400)}", "-depth", "11", "-seed", str(ctx.rnd.randrange(1 << 40))])
        ctx.tlc(r); ctx.add("sampler_behaviours", len(bs))
        if first: ctx.sample(dict(sampler_behaviour=bs[0]))
        jobs = [(matrix_job, i, k, bs, f"{ctx.seed}/{j}", ctx.pick(18, 80)) for j in range(2) for i, k in PAIRS if (i, k) in ow]
        evs = eng.flat(eng.gather(ctx, jobs, "C07 matrix"))
        ctx.add("xof_streams", sum(e["k"] ** 2 for e in evs))
        eng.judge(ctx, evs, what="C07 matrix")
        ctx.seed = f"{ctx.seed}+"; first = False
    ctx.seed = ctx.seed0
    if not ctx.viol: bulk_campaign(ctx, (0, 1), ctx.pick(60, 600), ctx.pick(40, 400), "C07 matrix in bulk")
    if not ctx.viol: campaign(ctx, [(g_kg, "real", 4), (g_enc, "real", 2), (g_dec, "real", 1), (g_style, "orc", 6)], "C07 real matrix")

# ---- C08
def c08(ctx):
    bulk_campaign(ctx, (0, 1), ctx.pick(60, 600), ctx.pick(40, 400), "C08 noise in bulk")
    if ctx.viol: return
    repeat_campaign(ctx, [(g_noise_kg, "orc", ctx.pick(45, 200)), (g_noise_enc, "orc", ctx.pick(45, 200)), (g_kg, "real", 3), (g_enc, "real", 2), (g_full, "orc", ctx.pick(3, 20))], "C08 noise")

# ---- C09
def tables(ctx):
    r, t = tlc.behaviours("Tables", "Tables.cfg", timeout=120)
    ctx.tlc(r)
    T = {}
    for e in t: T[e["f"], e["d"]] = np.array(e["v"], dtype=np.int64)
    return T
def comp_job(impl, k, xs, T, seed):
    """Every value at every position: encapsulations that make u_i, v the wanted values exactly,
    compared with the tables TLC computed from the specification."""
    R = random.Random(f"comp/{impl}/{k}/{seed}"); b = kyb.get(impl, k, "orc"); out = []
    b.log = lambda: []
    idx = np.arange(256)
    du, dv = alg.DU[k], alg.DV[k]
    mult = R.choice([1, 13, 13 * 7, 1000])
    for x in xs:
        u = [(x + mult * idx + 331 * i) % 3329 for i in range(k)]; v = (x * 7 + mult * idx + 5) % 3329
        m = R.randbytes(32); w = (v + T["D", 1][alg.unpack(m, 1)]) % 3329
        ct, ss, e = scen.exact_enc(b, R, "exact", u, v, m=m, c=R.choice([1, -1, 2]), p=R.randrange(256))
        exp = b"".join(alg.pack(T["C", du][p], du) for p in u) + alg.pack(T["C", dv][w], dv)
        out.append(dict(op="x", call=x, st=e["st"], res=0, k=k, impl="spec", note="compress"))
        bad = [i for i in range(len(exp)) if exp[i] != ct[i]]
        out.append(dict(op="x", call=x, st=e["st"], res=0 if not bad else 1, k=k, impl=impl, note=f"compress {x} bytes {bad[:8]}"))
        if b.foreign(): return []
    return out
def msg_job(impl, k, ws, T, seed):
    """Message decoding: every value w at every position.  s = one constant polynomial 1 and the
    others 0, so w = Decompress(v) - Decompress(u): all reachable (u, v) pairs at every position."""
    R = random.Random(f"msg/{impl}/{k}/{seed}"); b = kyb.get(impl, k, "orc"); out = []
    du, dv = alg.DU[k], alg.DV[k]; Du_, Dv_ = T["D", du], T["D", dv]
    one = [1, 0] * 128                          # NTT of the constant 1
    for x in ws:
        idx = np.arange(256)
        uu = (x + idx * R.choice([1, 3, 5, 9])) % (1 << du); vv = (x // 3 + idx * R.choice([1, 3, 7])) % (1 << dv)
        w = (Dv_[vv] - Du_[uu]) % 3329; m = alg.pack(T["C", 1][w], 1)
        i0 = R.randrange(k); u = [np.array([R.randrange(1 << du) for _ in range(256)]) for _ in range(k)]; u[i0] = uu
        s = [[0] * 256 for _ in range(k)]; s[i0] = one
        ct = b"".join(alg.pack(p, du) for p in u) + alg.pack(vv, dv)
        pk = b"".join(alg.pack(scen.rndpoly(R, 4096), 12) for _ in range(k)) + R.randbytes(32)
        h = R.randbytes(32); b.reset(); b.clearlog()
        st, ss = b.dec(ct, scen.mksk(R, s, pk, h=h))
        g = [e for e in lazy_log(b) if e[0] == 72]
        ok = any(e[2] == m + h for e in g)
        out.append(dict(op="x", call=x, st=st, res=0, k=k, impl="spec", note="message"))
        out.append(dict(op="x", call=x, st=st, res=0 if ok else 1, k=k, impl=impl, note=f"message {x}"))
        if b.foreign(): return []
    return out
def lazy_log(b):
    import ctypes as C
    b.l.orc_count.restype = C.c_size_t; res = []
    for j in range(b.l.orc_count()):
        r, d, n, o, p = C.c_uint(), C.c_uint(), C.c_size_t(), C.c_size_t(), C.c_void_p()
        b.l.orc_get(C.c_size_t(j), C.byref(r), C.byref(d), C.byref(n), C.byref(o), C.byref(p))
        res.append((r.value, d.value, C.string_at(p.value, n.value)))
    return res
def c09(ctx):
    ow = eng.worlds(ctx)
    T = tables(ctx)
    pairs = [p for p in PAIRS if p in ow]
    step = ctx.pick(6, 1)
    jobs = []
    for rd in range(ctx.pick(1, 3)):
        o = ctx.rnd.randrange(step)
        jobs += [(comp_job, i, k, list(range(o, 3329, step))[j::2], T, f"{ctx.seed}/{rd}/{j}") for j in range(2) for i, k in pairs]
        jobs += [(msg_job, i, k, list(range(0, 2048, ctx.pick(4, 1)))[j::2], T, f"{ctx.seed}/{rd}/{j}") for j in range(2) for i, k in pairs]
    tr = [t for t in eng.gather(ctx, jobs, "C09 tables") if t]
    ctx.add("table_ops", sum(map(len, tr)) // 2); ctx.add("value_position_pairs", 256 * sum(map(len, tr)) // 2)
    for t in tr: t.insert(0, dict(op="reset"))
    eng.judge(ctx, None, "PureTrace", what="C09 tables", traces=[eng.flat(tr[j::8]) for j in range(8) if tr[j::8]])
    if ctx.viol: return
    bulk_campaign(ctx, (1, 2), ctx.pick(40, 400), ctx.pick(20, 200), "C09 codecs in bulk")
    if ctx.viol: return
    repeat_campaign(ctx, [(g_mal_enc, "orc", ctx.pick(8, 60)), (g_mal_dec, "orc", ctx.pick(8, 60)), (g_exact, "orc", ctx.pick(8, 60)), (g_edge, "orc", ctx.pick(8, 60)), (g_kg, "real", 1), (g_enc, "real", 1)], "C09 codecs")

# ---- C10
def c10(ctx):
    ow = eng.worlds(ctx)
    ks = [k for k in KS if ("ref", k) in ow and ("avx2", k) in ow]
    tr = eng.gather(ctx, [(arith_lock, k, f"{ctx.seed}/{j}", ctx.pick(120, 2500)) for j in range(3) for k in ks], "C10 arithmetic lockstep")
    ctx.add("arith_lockstep", sum(map(len, tr)) // 2)
    eng.judge(ctx, None, "PureTrace", what="C10 arithmetic lockstep", traces=tr)
    if ctx.viol: return
    bulk_campaign(ctx, (0, 1, 2), ctx.pick(30, 300), ctx.pick(15, 150), "C10 arithmetic in bulk")
    if ctx.viol: return
    repeat_campaign(ctx, [(g_arith, "orc", ctx.pick(17, 80)), (g_mal_enc, "orc", ctx.pick(4, 30)), (g_mal_dec, "orc", ctx.pick(4, 30)), (g_honest, "real", 1)], "C10 arithmetic")
def arith_lock(k, seed, n):
    R = random.Random(f"arlock/{k}/{seed}"); out = []
    A, B, M = kyb.get("ref", k, "orc"), kyb.get("avx2", k, "orc"), kyb.get("model", k, "orc")
    for i in range(n):
        s = R.randrange(1 << 60)
        for b in (M, A, B):
            b.log = lambda: []
            for j, e in enumerate(g_arith(b, random.Random(s))):
                h = hashlib.sha256(b"".join(bytes(e[f]) for f in ("pk", "sk", "ct", "ss") if f in e))
                out.append(dict(op="x", call=i * 4 + j, st=e["st"], res=int.from_bytes(h.digest()[:3], "big") if not b.foreign() else 0, k=k, impl=b.impl, note=str(s)))
    return out

# ---- C14
def g_tape(b, R):
    """A randomised history on one tape: every call's outputs come from exactly its bytes."""
    n = R.randrange(3, 6); tape = scen.edge_bytes(R, 32) * 2 + R.randbytes(64 * n + 200)
    b.tape(tape); k = b.k
    if b.mode == "orc": b.reset()
    evs = [dict(op="tape", bytes=list(tape), k=k)]
    keys = []
    for i in range(n):
        if not keys or R.random() < .35:
            if b.mode == "orc": b.clearlog()
            st, pk, sk = b.keypair(); keys.append((pk, sk)); evs.append(scen.rec(b, "tape", op="keypair", st=st, pk=pk, sk=sk, pos=b.tape_pos()))
        elif R.random() < .75:
            pk = R.choice(keys)[0]
            if b.mode == "orc": b.clearlog()
            st, ct, ss = b.enc(pk); evs.append(scen.rec(b, "tape", op="enc", pk=pk, st=st, ct=ct, ss=ss, pos=b.tape_pos()))
            keys[-1] = keys[-1] + (ct,)
        else:
            pk, sk = keys[-1][:2]; p0 = b.tape_pos()
            ct = keys[-1][2] if len(keys[-1]) > 2 else R.randbytes(CT[k])
            e = scen.dec(b, sk, ct, "tape")[1]; e["st"] |= 256 * (b.tape_pos() != p0); evs.append(e)
    return [evs]
class R_(C.Structure): _fields_ = [("d", L_)] + [(n, C.c_void_p) for n in ("kpr", "encr", "set", "pos", "over")]
def draws(impl, k, mode, seed, n, per=24):
    """Histories of randomised calls and their deterministic counterparts as DrawTrace events."""
    (b,), LL = libs_((impl,), k, mode); p = lambda f: C.cast(f, C.c_void_p).value; sd = int.from_bytes(hashlib.sha256(f"dr/{k}/{mode}/{seed}".encode()).digest()[:7], "big")
    L = R_(LL[0], p(b.f["keypair"]), p(b.f["enc"]), p(b.l.rng_set), p(b.l.rng_pos), p(b.l.rng_overrun)); cnt, pos, st, dig = (C.c_int32 * (2 * n))(), (C.c_int32 * (2 * n))(), (C.c_int32 * n)(), (C.c_uint32 * (2 * n))()
    drv().draws(C.byref(L), k, C.c_uint64(sd), C.c_long(n), per, cnt, pos, dig, st); cnt, pos, st, dig = list(cnt), list(pos), list(st), list(dig)
    if mode == "orc" and b.foreign(): return []
    return [dict(op=("randomised", "deterministic")[j], call=i, st=st[i], keypairs=cnt[2 * i], encs=cnt[2 * i + 1], pos=pos[2 * i + j], res=dig[2 * i + j], k=k, impl=impl, note=f"{mode} seed={sd} history={i} calls={per}") for i in range(n) for j in range(2)]
def draw_campaign(ctx, ow, n, no):
    jobs = [(draws, i, k, "real", f"{ctx.seed}/{c}", n if i == "avx2" else n // 3) for c in range(8) for k in (4, 3, 2) for i in ("ref", "avx2")] + [(draws, i, k, "orc", f"{ctx.seed}/{c}", no) for c in range(4) for i, k in sorted(ow) if i != "model"]
    tr = [t for t in eng.gather(ctx, jobs, "C14 draws") if t]; ctx.add("drawing_histories", sum(map(len, tr)) // 2); ctx.add("randomised_calls", sum(e["keypairs"] + e["encs"] for t in tr for e in t) // 2)
    eng.judge(ctx, None, "DrawTrace", what="C14 draws", traces=[eng.flat(tr[j::8]) for j in range(8) if tr[j::8]])
def c14(ctx):
    ow = eng.worlds(ctx); build.helper("bulk_drv", ["bulk_drv.c"])
    draw_campaign(ctx, ow, ctx.pick(900, 12000), ctx.pick(60, 800))
    if ctx.viol: return
    system(ctx, "KemSystem_gen.cfg", ctx.pick(100, 3000), 17, what="C14 behaviours")
    if ctx.viol: return
    first = True
    while first or (ctx.thorough and ctx.left() > 60 and not ctx.viol):
        jobs = ev_jobs(ctx, g_tape, "real", ctx.pick(3, 20)) + ev_jobs(ctx, g_tape, "orc", ctx.pick(8, 60), ow)
        hs = eng.flat(eng.gather(ctx, jobs, "C14 tapes"))
        hs = [h for h in hs if not any(e.get("foreign") for e in h)]
        ctx.add("tape_histories", len(hs)); ctx.sample([{k: v for k, v in e.items() if k in ("op", "pos", "k", "impl", "st")} for e in hs[0]])
        tr = [[] for _ in range(8)]; w = [0] * 8
        for h in sorted(hs, key=lambda h: -sum(map(eng.weight, h))):
            i = w.index(min(w)); tr[i] += h; w[i] += sum(map(eng.weight, h))
        eng.judge(ctx, None, "KemTrace", what="C14 tapes", traces=[t for t in tr if t])
        ctx.seed = f"{ctx.seed}+"; first = False
    ctx.seed = ctx.seed0
