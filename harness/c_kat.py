"""C22: the known-answer generator."""
import os, random, re, shutil, subprocess, tempfile
import build, c_drbg, eng, kyb, san, tlc
from c_hash import num
from kyb import PK, SK, CT, NAME
SRC = lambda: f"{build.REPO}/ref/nistkat"
def exe(k, stub):
    out = f"{build.outdir()}/kat{k}_{stub or 'real'}"
    if not os.path.exists(out):
        d = f"{build.REPO}/ref"; fl = f"-w -O3 -fomit-frame-pointer -DKYBER_K={k}".split() + [f"-I{d}"]
        src = [f"{build.HERE}/stub_katkem.c"] if stub else [f"{d}/{f}" for f in build.sources("ref") + ["fips202.c", "symmetric-shake.c"]]
        tmp = f"{out}.{build.uniq()}"
        build.run([build.CC] + fl + src + [f"{SRC()}/rng.c", f"{SRC()}/PQCgenKAT_kem.c", "-o", tmp, "-lcrypto"] + (san.FL if stub == "san" else [])); os.rename(tmp, out)
    return out
HEX = re.compile(r"([0-9A-F]{2})*\Z")
def lex(text, digest):
    """Lines of a KAT file.  digest(key, bytes) -> what the trace carries."""
    if text and not text.endswith("\n"): text += "?"
    out = []
    for ln in text.split("\n")[:-1] if text.endswith("\n") else text.split("\n"):
        e = dict(key="bad", txt=ln[:60])
        if ln == "": e = dict(key="blank", v=[])
        elif ln.startswith("# "): e = dict(key="head", txt=ln[2:])
        elif re.match(r"count = (0|[1-9]\d{0,6})\Z", ln): e = dict(key="count", n=int(ln[8:]))
        else:
            m = re.match(r"(seed|pk|sk|ct|ss) = ", ln)
            if m and HEX.match(ln[m.end():]) and len(ln) > m.end(): e = dict(key=m.group(1), v=digest(m.group(1), bytes.fromhex(ln[m.end():])))
            elif re.match(r"(pk|sk|ct|ss) =\Z", ln): e = dict(key=ln[:2], v=[])
        out.append(e)
    return out
def execute(k, stub, script, stale):
    """Runs the generator in a scratch directory: (exit code, req, rsp, call log)."""
    d = tempfile.mkdtemp(prefix="kat_")
    try:
        n = SK[k]
        if stale == 1:
            for x in ("req", "rsp"): open(f"{d}/PQCkemKAT_{n}.{x}", "w").write("count = 7\nseed = AB\n" * 60000)
        if stale in ("req", "rsp"): os.mkdir(f"{d}/PQCkemKAT_{n}.{stale}")
        try: r = subprocess.run([exe(k, stub)], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(san.ENV, KATLOG=d + "/log", KATSCRIPT=script or ""), timeout=90)
        except subprocess.TimeoutExpired as t: r = subprocess.CompletedProcess(t.cmd, -14)       # never ends
        rd = lambda p: open(p, errors="replace").read() if os.path.isfile(p) else ""
        return r.returncode, rd(f"{d}/PQCkemKAT_{n}.req"), rd(f"{d}/PQCkemKAT_{n}.rsp"), rd(d + "/log")
    finally: shutil.rmtree(d, ignore_errors=True)
def dg(key, b): return list(b) if key == "seed" else [num(b)]
def req_events(req): return [dict(op="req", **e) for e in lex(req, dg)]
def real_run(k, full, stale):
    """The generator with the library.  full: records the specification computes itself."""
    code, req, rsp, _ = execute(k, "", "", stale)
    out = [dict(op="run", k=k, stub=0)] + req_events(req) + [dict(op="rsp0")]
    libs = [kyb.get(i, k) for i in ("ref", "avx2")]; D = c_drbg.Drbg(c_drbg.AesFn())
    cur = -1; full = set(full); seeds = [bytes(e["v"]) for e in out if e["op"] == "req" and e["key"] == "seed"]
    keep = lambda key, b: list(b)
    for e in lex(rsp, keep):
        if e["key"] == "count":
            cur += 1
            if cur < len(seeds) and len(seeds[cur]) == 48:
                D.init(seeds[cur], b""); c = D.gen(64); m = D.gen(32); r = dict(op="rec", coins=list(c), m=list(m), full=1 if cur in full else 0)
                if cur not in full:
                    w = []
                    for b in libs:
                        _, pk, sk = b.keypair_derand(c); _, ct, ss = b.enc_derand(pk, m); _, s2 = b.dec(ct, sk); w.append((pk, sk, ct, ss, s2))
                    if w[0] != w[1]: w[0] = (b"",) * 5
                    r["w"] = {n: [num(x)] for n, x in zip(("pk", "sk", "ct", "ss"), w[0])}; r["dec"] = [num(w[0][4])]
                out.append(r)
        elif e["key"] in ("pk", "sk", "ct", "ss") and cur not in full: e["v"] = dg(e["key"], bytes(e["v"]))
        out.append(dict(op="rsp", **e))
    return out + [dict(op="exit", code=code)]
def stub_run(k, script, stale=0, kind="stub"):
    code, req, rsp, log = execute(k, kind, script, stale)
    out = [dict(op="run", k=k, stub=1, note=script)] + req_events(req); fail = False
    for ln in log.splitlines():
        f, *kv = ln.split(); e = dict(op="call", f=f, draws=[])
        for x in kv:
            n, v = x.split("=")
            if n == "draw": e["draws"].append(list(bytes.fromhex(v)))
            elif n == "ret": e["ret"] = int(v)
            else: e[n] = [num(bytes.fromhex(v))]
        out.append(e)
    if code == 0:
        out.append(dict(op="rsp0"))
        out += [dict(op="rsp", **e) for e in lex(rsp, dg)]
    return out + [dict(op="exit", code=code)]
def nofile_run(k, which):
    code, *_ = execute(k, "stub", "1 -1 0 0 -1", which); return [dict(op="nofile", code=code)]
def c22(ctx):
    r = ctx.tlc(tlc.run("AesLemmas", workers=1))
    if not r["ok"]: raise RuntimeError(r["out"][-2000:])
    ks = (2, 3, 4); build.build_all(modes=("real",))
    build.pmap(lambda a: exe(*a), [(k, s) for k in ks for s in ("", "stub", "san")])
    R = ctx.rnd; jobs = []; rd = 0
    while True:
        jobs = []
        nf = ctx.pick(3, 12)
        for k in ks: jobs.append((real_run, k, [0, 99] + R.sample(range(1, 99), nf), 1))
        for k in ks:
            if ctx.thorough: jobs.append((real_run, k, R.sample(range(100), 20), 0))
        for n in range(ctx.pick(21, 160)):
            k = ks[n % 3]; s = R.randrange(1 << 30); c = n % 7; rec = R.choice([0, 1, 50, 98, 99, R.randrange(100)]); ret = R.choice([1, -1, 2, 256, 255, -(1 << 31)])
            sc = f"{s} -1 0 0 -1" if c == 0 else f"{s} {rec} {c - 1} {ret} -1" if c < 4 else f"{s} {rec} 2 0 {R.choice([0, 1, 15, 16, 30, 31, R.randrange(32)])}"
            jobs.append((stub_run, k, sc, 0, "san" if n // 3 % 3 == 2 else "stub"))
        for k in ks:
            for w in ("req", "rsp"): jobs.append((nofile_run, k, w))
        tr = eng.gather(ctx, jobs, "C22 KAT generator"); ctx.add("generator_runs", len(tr)); ctx.sample(tr[-1]); ctx.sample(jobs[4][1:])
        # the three long traces on their own processes, the others spread
        nr = 6 if ctx.thorough else 3
        rest = tr[nr:]; eng.judge(ctx, None, "KatTrace", what="C22 KAT generator", traces=tr[:nr] + [eng.flat(rest[j::5]) for j in range(5)])
        rd += 1
        if not ctx.thorough or ctx.viol or ctx.left() < 120: return
