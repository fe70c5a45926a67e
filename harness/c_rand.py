"""C13: randombytes against scripted operating systems."""
import json, os, random, subprocess
import build, eng, tlc
BR = {"getrandom": [], "netbsd": ["-U__linux__", "-include", f"{build.HERE}/netbsd.h"], "device": ["-U__linux__"],
      "context": ["-U__linux__", "-D_WIN32", "-DRB_WIN"]}
GEN = {"getrandom": "getrandom", "netbsd": "getrandom", "device": "device", "context": "context"}
def driver(branch, src):
    tag = os.path.basename(os.path.dirname(src))
    out = f"{build.outdir()}/rb_{branch}_{tag}"
    if not os.path.exists(out):
        o = f"{out}.{os.getpid()}.o"; inc = [f"-I{build.HERE}/fakewin", f"-I{os.path.dirname(src)}"]
        build.run([build.CC, "-c", "-w", "-O3", "-fomit-frame-pointer"] + BR[branch] + inc + [src, "-o", o])
        build.run([build.CC, "-w", "-O2"] + (["-DRB_WIN"] if branch == "context" else []) + inc + [f"{build.HERE}/rb_driver.c", o, "-o", f"{out}.{os.getpid()}"])
        os.rename(f"{out}.{os.getpid()}", out); os.unlink(o)
    return out
def sources():
    s = {}
    for d in build.IMPL_DIRS:
        p = f"{build.REPO}/{d}/randombytes.c"
        if os.path.exists(p): s.setdefault(os.path.realpath(p), p)
    return list(s.values())
def perform(exe, lines):
    r = subprocess.run([exe], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=400)
    if r.returncode: raise RuntimeError(f"{exe}: exit {r.returncode}")
    out, cur = [], []
    for ln in r.stdout.splitlines():
        e = json.loads(ln)
        if e["op"] == "new":
            out.append(cur); cur = []
        cur.append(e)
    out.append(cur); out = out[1:]
    if len(out) != len(lines): raise RuntimeError("driver lost a script")
    for t, l in zip(out, lines): t[0]["note"] = l[:200]
    return [e for t in out if t[-1]["op"] != "skip" for e in t]
def line(R, beh, branch):
    f = lambda n: n if n < 2 else R.choice([2, 3, 4, 5, 7, 15, 16, 31, 32, 33, 47, 48, 49, 64, 100, 255, 256, 257, 1000, 4096, R.randrange(2, 5000), 65536, 70001] + ([1048575, 1048576, 1048577, 2097152, 2097153, 3000000] if branch == "context" and R.random() < .5 else []))
    return f"{R.randrange(1 << 40)} {len(beh['reqs'])} {' '.join(str(f(n)) for n in beh['reqs'])} {''.join(beh['outs'])}"
BIGS = [(1 << 31) - 1, 1 << 31, (1 << 31) + 7, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, (1 << 33) + 300]
def long_lines(R, branch, n):
    """Many faults, many requests, requests that exceed 32 bits."""
    out = []
    for _ in range(n):
        k = R.randrange(1, 7); ls = [R.choice([0, 1, 2, 16, 32, 48, R.randrange(600)]) for _ in range(k)]
        a = "F1HMI" if branch != "context" else "F"
        s = "".join(R.choice(a) for _ in range(R.randrange(40))) if R.random() < .7 else "I" * R.randrange(60)
        if branch == "context": s = "F" * R.randrange(12)
        if R.random() < .3: s += "E"
        out.append(f"{R.randrange(1 << 40)} {k} {' '.join(map(str, ls))} {s}")
    for b in BIGS:
        for s in (["", "I", "T", "TITM", "B", "1T", "FE", "E", "IE", "HT", "BE"] if branch != "context" else ["", "FE", "F" * 40 + "E"]):
            if branch == "device": s = "F" + s
            out.append(f"{R.randrange(1 << 40)} 1 {b} {s}")
    return out
def c13(ctx):
    beh = {}
    for b in ("getrandom", "device", "context"):
        r, bs = tlc.behaviours("RandomBytes", f"RandomBytes_{b}.cfg", workers=8)
        if not r["ok"]: raise RuntimeError(r["out"])
        ctx.tlc(r); beh[b] = sorted({json.dumps(x, sort_keys=True) for x in bs})
        ctx.add("behaviours_generated_" + b, len(beh[b]))
    exes = [(b, driver(b, s)) for s in sources() for b in BR]
    rd = 0
    while True:
        jobs = []
        for b, exe in exes:
            R = random.Random(f"rb/{b}/{ctx.seed}/{rd}"); g = beh[GEN[b]]
            g = R.sample(g, min(len(g), ctx.pick(4000, len(g)))); g = [line(R, json.loads(x), b) for x in g]
            if b == "context": g = g * 8
            g += long_lines(R, b, ctx.pick(300, 3000))
            R.shuffle(g); ctx.add("scripts_performed", len(g)); ctx.sample(f"{b}: {g[0]}")
            jobs += [(perform, exe, g[j::4]) for j in range(4)]
        tr = eng.gather(ctx, jobs, "C13 randombytes")
        ev = [t for t in tr]
        eng.judge(ctx, None, "RandomBytes", what="C13 randombytes", traces=ev)
        rd += 1
        if not ctx.thorough or ctx.viol or ctx.left() < 60: return
