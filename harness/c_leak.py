"""C18: what runs does not depend on secrets."""
import hashlib, os, random, re, subprocess, tempfile, shutil
import alg, build, eng, kyb, scen, tlc, trace
from kyb import CT, PK, SK
from trace import KD, ED, DEC, KG, ENC
PAIRS = [(4, "ref"), (3, "ref"), (2, "ref"), (4, "avx2"), (3, "avx2"), (2, "avx2")]
def vary(R, way, x, twelve=False):
    if way == "same": return x
    if way == "zero": return bytes(len(x))
    if way == "ones": return b"\xff" * len(x)
    if way == "bit":
        y = bytearray(x); y[R.randrange(len(y))] ^= 1 << R.randrange(8); return bytes(y)
    if twelve and R.random() < .6: return b"".join(alg.pack(scen.extreme_poly(R, 4096), 12) for _ in range(len(x) // 384))
    return scen.edge_bytes(R, len(x)) if R.random() < .3 else R.randbytes(len(x))
def group(impl, k, var, op, exps, seed, dump=None):
    """One base situation and experiments on it, in one process: events of Leak."""
    R = random.Random(f"leak/{impl}/{k}/{var}/{op}/{seed}"); b = kyb.get("ref", k); x = trace.exe(impl, k, var); ids = {}; I = lambda v: ids.setdefault(v, len(ids) + 1)
    recs, ops, evs = [], [], []; prog = f"{impl}{k}{var}"
    coins = R.randbytes(64); _, pk, sk = b.keypair_derand(coins); m = R.randbytes(32); _, ct, kss = b.enc_derand(pk, m)
    if op == "dec":
        cts = {"honest": ct, "altered": scen.mutate(R, ct), "any": scen.edge_bytes(R, CT[k])}
        if R.random() < .3: pk = scen.malformed_pk(R, k)[:-32] + pk[-32:]; sk = sk[:384*k] + pk + hashlib.sha3_256(pk).digest() + sk[-32:]
    if op == "enc_derand" and R.random() < .3: pk = scen.malformed_pk(R, k)[:-32] + pk[-32:]
    rho = R.randbytes(32)
    for n, e in enumerate([exps[0]] + exps):
        w = e["ways"]; ev = dict(op=op, prog=prog, k=k, impl=impl, note=f"{var} {w} {e['ct']}")
        if op == "keypair_derand":
            c = vary(R, w[0], coins[:32]) + vary(R, w[1], coins[32:]); rnd = n >= max(5, len(exps) - 1)
            recs.append(trace.record(KG if rnd else KD, [None, None] + ([] if rnd else [c]), k, fix=rho, tape=c if rnd else b"")); ops.append(KG if rnd else KD); ev["c"] = c
            if rnd: ev["op"] = "keypair"
        elif op == "enc_derand":
            mm = vary(R, w[0], m); rnd = n >= max(5, len(exps) - 1)
            recs.append(trace.record(ENC if rnd else ED, [None, None, pk] + ([] if rnd else [mm]), k, tape=mm if rnd else b"")); ops.append(ENC if rnd else ED); ev["a"] = dict(pk=I(pk))
            if rnd: ev["op"] = "enc"
        else:
            s = vary(R, w[0], sk[:384*k], True); z = vary(R, w[1], sk[-32:]); c = cts[e["ct"]]
            own = pk == sk[384*k:768*k+32] and b.keypair_derand(coins)[1] == pk
            recs.append(trace.record(DEC, [None, c, s + sk[384*k:-32] + z], k)); ops.append(DEC)
            ev["a"] = dict(pk=I(pk), ct=I(c)); ev["acc"] = bool(own and c == ct and s == sk[:384*k]); ev["kss"] = I(kss)
        evs.append(ev)
    job = b"".join(recs)
    rc, ws, res = trace.run(x, k, ops, job, dump, range(len(ops)))
    if res is None: eng.died(rc); raise RuntimeError(f"tracer failed: {rc} {len(ws)}")
    sites = trace.divisions(impl, k, var); dv = None
    if sites:
        rc, dv = trace.run_div(x, k, ops, job, sites)
        if dv is None: eng.died(rc); raise RuntimeError(f"division recorder failed: {rc}")
    out = []
    for n, (e, w, r) in enumerate(zip(evs, ws, res)):
        if n == 0: continue                       # warm-up: the same call again follows
        e["st"] = r[0]; e["seen"] = I((w["n"], w["h"]) + (dv[n][3] if dv else ())); e["n"] = w["n"]
        if "c" in e:
            d = e.pop("c")[:32]; e["a"] = dict(rho=I(rho if r[1] else hashlib.sha3_512(d + bytes([k])).digest()[:32]))
        if op == "dec": e["ss"] = I(r[2][0][1])
        if sites: e["divisions"] = dv[n][3][0]
        out.append(e)
    # programs are told apart per process: addresses are those of this run
    for e in out: e["prog"] += f"/{seed}"
    return out
def first_difference(impl, k, var, op, exps, seed, i, j):
    """Diagnosis only: where two windows part."""
    d = tempfile.mkdtemp(prefix="leak_")
    try:
        group(impl, k, var, op, exps, seed, dump=d + "/w"); last = "?"
        with open(f"{d}/w.{i}") as f, open(f"{d}/w.{j}") as g:
            for n, (a, c) in enumerate(zip(f, g)):
                if a != c: break
                if a[0] == "I": last = a[3:].split(",")[0]
            else: return "the traces agree; the operands of a division differ"
        r = subprocess.run(["addr2line", "-f", "-e", trace.exe(impl, k, var), last], capture_output=True, text=True).stdout.split()
        return f"after {n} steps, in {r[0] if r else '?'} at {last}: {a.strip()} / {c.strip()}"
    finally: shutil.rmtree(d, ignore_errors=True)
def plan(R, exps, op, n):
    """The base first, then every experiment once before any repeats."""
    ex = [e for e in exps if e["op"] == op]
    base = [e for e in ex if set(e["ways"]) == {"same"} and e["ct"] == "honest"][0]; rest = [e for e in ex if e != base]; R.shuffle(rest)
    return base, rest
def c18(ctx):
    build.build_all(modes=("real",)); trace.trc()
    VARS = [v for v in trace.FLAGS if v]
    r = ctx.tlc(tlc.run("Leak", "Leak_mc.cfg", workers=4)); 
    if not r["ok"]: raise RuntimeError(r["out"][-2000:])
    if not tlc.run("Leak", "Leak_broken.cfg", workers=2)["violated"]: raise RuntimeError("Leak does not see a broken stage")
    r, exps = tlc.behaviours("Leak", "Leak_gen.cfg"); ctx.tlc(r); ctx.add("experiments", len(exps)); R = ctx.rnd; rd = 0
    while True:
        jobs = []
        todo = [("", i, k) for k, i in PAIRS]
        if ctx.thorough: todo += [(R.choice(VARS), i, k) for k, i in PAIRS]
        else:
            todo += [("gcc-Os", "ref", 2), ("gcc-Os", "ref", 4), ("gcc-Os", "avx2", 2), ("clang-Os", "ref", 3), ("clang-O3", "avx2", 3)]
        build.pmap(lambda t: trace.exe(t[1], t[2], t[0]), todo)
        build.pmap(lambda t: trace.divisions(t[1], t[2], t[0]), todo)
        for var, i, k in todo:
            for op in ("dec", "enc_derand", "keypair_derand"):
                base, rest = plan(R, exps, op, 0)
                small = not ctx.thorough
                per = (3 if i == "ref" else 6) if small else 12
                if small and var: per = 2
                ng = 1 if small else 2
                need = [e for e in rest if op != "dec" or e["ct"] == "honest"]; other = [e for e in rest if op == "dec" and e["ct"] != "honest"]
                for g in range(ng):
                    # same ciphertext: accepted and rejected side by side; another group: the altered ones
                    jobs.append((group, i, k, var, op, [base] + [need[(g * per + n) % len(need)] for n in range(per)], f"{ctx.seed}/{rd}/{g}"))
                    if op == "dec" and (not small or i == "avx2"):
                        c = R.choice(["altered", "any"]); o = [e for e in other if e["ct"] == c]; R.shuffle(o)
                        jobs.append((group, i, k, var, op, o[:per], f"{ctx.seed}/{rd}/{g}x"))
        jobs.sort(key=lambda j: (j[1] == "avx2", -j[2], -len(j[5])))
        tr = eng.gather(ctx, jobs, "C18 traces", limit=600)
        ctx.add("traced_runs", sum(map(len, tr))); ctx.add("trace_steps", sum(e["n"] for t in tr for e in t)); ctx.cov["programs"] = sorted({e["prog"].split("/")[0] for t in tr for e in t} | set(ctx.cov.get("programs", [])))
        if tr: ctx.sample(tr[0][0]); ctx.sample(tr[-1][-1])
        bad = 0
        for j, t in zip(jobs, tr if len(tr) == len(jobs) else []):
            by = {}
            for n, e in enumerate(t):
                key = e["op"] + str(e["a"]); f = by.setdefault(key, (n + 1, e["seen"]))
                if f[1] != e["seen"] and bad < 2:
                    bad += 1
                    try: e["where"] = first_difference(*j[1:], f[0], n + 1); print("  first difference", j[1:5], e["where"])
                    except Exception as x: e["where"] = repr(x)
        eng.judge(ctx, None, "Leak", what="C18 observation", traces=[eng.flat(tr[j::4]) for j in range(4) if tr[j::4]])
        rd += 1
        if not ctx.thorough or ctx.viol or ctx.left() < 150: return
