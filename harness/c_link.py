"""C17: all builds in one process."""
import ctypes as C, hashlib, json, os, random, re, shutil, subprocess, tempfile, threading
import build, eng, kyb, tlc
WRAP = '#!/bin/bash\na=()\nfor x in "$@"; do case "$x" in -march=native) x=-march=x86-64-v3;; -mtune=native) x=-mtune=generic;; esac; a+=("$x"); done\nexec %s "${a[@]}"\n'
PATHS = {("kem", i, k): (f"ref/lib/libpqcrystals_kyber{kyb.NAME[k]}_ref.so" if i == "ref" else f"avx2/libpqcrystals_kyber{kyb.NAME[k]}_avx2.so") for i in ("ref", "avx2") for k in (2, 3, 4)}
PATHS.update({("fips", "ref", 0): "ref/lib/libpqcrystals_fips202_ref.so", ("fips", "avx2", 0): "avx2/libpqcrystals_fips202_ref.so", ("x4", "avx2", 0): "avx2/libpqcrystals_fips202x4_avx2.so"})
def ns(l): return {"kem": f"pqcrystals_kyber{kyb.NAME.get(l[2])}_{l[1]}_", "fips": f"pqcrystals_kyber_fips202_{l[1]}_", "x4": "pqcrystals_kyber_fips202x4_avx2_"}[l[0]]

def shared():
    """make shared of the tree, in a copy; returns the directory."""
    out = f"{build.outdir()}/shared"
    if os.path.isdir(out): return out
    t = tempfile.mkdtemp(prefix="shared_")
    try:
        ig = shutil.ignore_patterns("*.so", "*.o", "*.req", "*.rsp", "_build", ".git", "test_*[0-9]", "PQCgenKAT_kem*[0-9]")
        for d in ("ref", "avx2"): shutil.copytree(f"{build.REPO}/{d}", f"{t}/{d}", ignore=ig)
        open(f"{t}/cc", "w").write(WRAP % build.CC); os.chmod(f"{t}/cc", 0o755)
        env = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "NISTFLAGS", "LDFLAGS", "MAKEFLAGS")}
        ps = [subprocess.Popen(["make", "-s", "-j4", f"CC={t}/cc", "shared"], cwd=f"{t}/{d}", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for d in ("avx2", "ref")]
        os_ = [p.communicate()[0] for p in ps]
        for p, o in zip(ps, os_):
            if p.returncode: raise build.BuildError(o[-3000:])
        keep = tempfile.mkdtemp(prefix="sh_", dir=build.outdir())
        for p in PATHS.values():
            os.makedirs(os.path.dirname(f"{keep}/{p}"), exist_ok=True); shutil.copy(f"{t}/{p}", f"{keep}/{p}")
        try: os.rename(keep, out)
        except OSError: shutil.rmtree(keep)
    finally: shutil.rmtree(t, ignore_errors=True)
    return out
def nm(path, *fl):
    r = build.run(["nm", "-P"] + list(fl) + [path]); return [l.split()[:2] for l in r.splitlines() if l.strip() and not l.endswith(":")]
def relocs(path):
    """Names this module reaches through the dynamic linker."""
    out = set()
    for l in build.run(["readelf", "-r", "-W", path]).splitlines():
        f = l.split()
        if len(f) >= 5 and f[2].startswith("R_") and not f[4].startswith("+"): out.add(f[4].split("@")[0])
    return out
def baseline():
    """Dynamic symbols the tool chain itself puts into an empty library."""
    t = tempfile.mkdtemp(prefix="empty_")
    try:
        open(f"{t}/e.c", "w").write("int empty_;\n"); build.run([build.CC, "-shared", "-fPIC", f"{t}/e.c", "-o", f"{t}/e.so"])
        return {n.split("@")[0] for n, _ in nm(f"{t}/e.so", "-D")} - {"empty_"}
    finally: shutil.rmtree(t, ignore_errors=True)
def declared(impl, header):
    """Functions a header of the tree declares (system headers left out)."""
    txt, on = [], False
    r = build.run([build.CC, "-E", "-mavx2", "-mbmi2", "-mpopcnt", f"-I{build.REPO}/{impl}", f"{build.REPO}/{impl}/{header}"])
    for l in r.splitlines():
        m = re.match(r'#\s*\d+\s+"([^"]*)"', l)
        if m: on = os.path.realpath(m.group(1)).startswith(os.path.realpath(build.REPO) + "/")
        elif on: txt.append(l)
    return sorted(set(re.findall(r"\b(\w+)\s*\((?:[^(){};]|\([^()]*\))*\)\s*;", " ".join(txt))))
NAMES = {"api": ["PUBLICKEYBYTES", "SECRETKEYBYTES", "CIPHERTEXTBYTES", "BYTES", "KEYPAIRCOINBYTES", "ENCCOINBYTES"], "kem": ["PUBLICKEYBYTES", "SECRETKEYBYTES", "CIPHERTEXTBYTES", "BYTES"]}
def sizes():
    out, t = [], tempfile.mkdtemp(prefix="sizes_")
    try:
        jobs = []
        for i in ("ref", "avx2"):
            for h in ("api", "kem"):
                for k in (2, 3, 4):
                    src = f'#include <stdio.h>\n#include "api.h"\n#include "kem.h"\n#include "params.h"\nint main(void){{\n'
                    pre = (lambda n: [f"pqcrystals_kyber{kyb.NAME[k]}_{i}_{n}", f"pqcrystals_kyber{kyb.NAME[k]}_{n}"]) if h == "api" else (lambda n: [f"CRYPTO_{n}"])
                    for n in NAMES[h]:
                        for m in pre(n): src += f'#ifdef {m}\nprintf("{n} %ld\\n",(long)({m}));\n#endif\n'
                    f = f"{t}/{i}{h}{k}"; open(f + ".c", "w").write(src + "return 0;}\n")
                    jobs.append((i, h, k, f, subprocess.Popen([build.CC, "-w", f"-DKYBER_K={k}", f"-I{build.REPO}/{i}", f + ".c", "-o", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for i, h, k, f, p in jobs:
            p.communicate()
            if p.returncode: continue
            for l in build.run([f]).splitlines(): out.append(dict(place=f"{h}.h/{i}", k=k, what=l.split()[0], value=int(l.split()[1])))
    finally: shutil.rmtree(t, ignore_errors=True)
    meta = {"length-public-key": "PUBLICKEYBYTES", "length-ciphertext": "CIPHERTEXTBYTES", "length-secret-key": "SECRETKEYBYTES", "length-shared-secret": "BYTES"}
    for k in (2, 3, 4):
        p = f"{build.REPO}/Kyber{kyb.NAME[k]}_META.yml"
        if not os.path.exists(p): continue
        for l in open(p):
            a, _, b = l.partition(":")
            if a.strip() in meta and b.strip().isdigit(): out.append(dict(place="META", k=k, what=meta[a.strip()], value=int(b)))
    return out
def objects():
    """Every object of a static program that holds all builds: [(name, path)]."""
    js = []
    for i in ("avx2", "ref"):
        js += [(f"{i}/{s}", build.obj_async(i, s, [], f"h_{i}")) for s in build.hash_sources(i)[::-1]]
        for k in (4, 3, 2): js += [(f"{i}{k}/{s}", build.obj_async(i, s, [f"-DKYBER_K={k}"], f"o_{i}{k}")) for s in build.sources(i) + ["symmetric-shake.c"]]
    return [(n, f.result()) for n, f in js]
def facts(d, objs):
    base = baseline(); libs, decl = [], []
    for l, p in PATHS.items():
        sy = nm(f"{d}/{p}", "-D"); de = {n.split("@")[0] for n, t in sy if t not in "UwvW" or t == "W"} - base
        un = {n for n, t in sy if t == "U"}; rl = relocs(f"{d}/{p}")
        libs.append(dict(kind=l[0], impl=l[1], k=l[2], **{"def": sorted(de), "need": sorted(n for n in un if "@" not in n and n not in base), "own": sorted(de & rl)}))
    for i in ("ref", "avx2"):
        a = declared(i, "api.h")
        for k in (2, 3, 4):
            pre = f"pqcrystals_kyber{kyb.NAME[k]}_"
            decl.append(dict(kind="kem", impl=i, k=k, names=[n for n in a if n.startswith(pre) or (k == 2 and not n.startswith("pqcrystals_kyber"))]))
        decl.append(dict(kind="fips", impl=i, k=0, names=declared(i, "fips202.h")))
    decl.append(dict(kind="x4", impl="avx2", k=0, names=[n for n in declared("avx2", "fips202x4.h")]))
    ob = [dict(obj=n, **{"def": sorted(s for s, t in nm(p, "-g", "--defined-only") if t in "TDBRCGS")}) for n, p in objs]
    return dict(libs=libs, decl=decl, objs=ob, sizes=sizes())
# ------------------------------------------------------------------- replay
FIPS = ["sha3_256", "sha3_512", "shake128", "shake256"]
def use(h, l, seed, tape):
    """Digest of everything one library returns on inputs made from `seed'."""
    R = random.Random(f"use/{l[2]}/{seed}" if l[0] == "kem" else f"use/{seed}"); H = hashlib.sha256()
    f = lambda n: getattr(h, ns(l) + n)
    if l[0] == "kem":
        k = l[2]; B = C.create_string_buffer
        pk, sk, ct, ss, s2 = B(kyb.PK[k]), B(kyb.SK[k]), B(kyb.CT[k]), B(32), B(32)
        def call(n, *a):
            st = f(n)(*a); H.update(n.encode() + bytes([st & 255]))
            for x in a: H.update(x.raw if hasattr(x, "raw") else x)
        for rnd in range(2):
            if rnd: call("keypair_derand", pk, sk, R.randbytes(64)); call("enc_derand", ct, ss, pk, R.randbytes(32))
            else:
                tape(R.randbytes(96)); call("keypair", pk, sk); call("enc", ct, ss, pk)
            call("dec", s2, ct, sk); H.update(bytes([s2.raw == ss.raw]))
            b = bytearray(ct.raw); b[R.randrange(len(b))] ^= 1 << R.randrange(8); call("dec", s2, bytes(b), sk)
        b = R.randbytes(kyb.PK[k]); call("enc_derand", ct, ss, b, R.randbytes(32)); call("dec", s2, R.randbytes(kyb.CT[k]), R.randbytes(kyb.SK[k]))
    elif l[0] == "fips":
        for n in (0, 31, 71, 136, 168, 700):
            m = R.randbytes(n); o = C.create_string_buffer(400); z = C.c_size_t
            f("sha3_256")(o, m, z(n)); f("sha3_512")(C.byref(o, 32), m, z(n)); f("shake128")(C.byref(o, 96), z(150), m, z(n)); f("shake256")(C.byref(o, 246), z(154), m, z(n)); H.update(o.raw)
            for v in ("shake128", "shake256"):
                st = C.create_string_buffer(256); o = C.create_string_buffer(400)
                f(v + "_init")(st); f(v + "_absorb")(st, m, z(n // 3)); f(v + "_absorb")(st, m[n // 3:], z(n - n // 3)); f(v + "_finalize")(st); f(v + "_squeeze")(o, z(77), st); f(v + "_squeeze")(C.byref(o, 77), z(300), st); H.update(o.raw)
                o = C.create_string_buffer(400); f(v + "_absorb_once")(st, m, z(n)); f(v + "_squeezeblocks")(o, z(2), st); H.update(o.raw)
    else:
        raw = C.create_string_buffer(1024); st = C.c_void_p((C.addressof(raw) + 31) & ~31); z = C.c_size_t
        for n in (0, 34, 136, 168, 401):
            ms = [R.randbytes(n) for _ in range(4)]
            for v in ("shake128x4", "shake256x4"):
                os_ = [C.create_string_buffer(512) for _ in range(4)]; f(v)(*os_, z(500), *ms, z(n)); [H.update(o.raw) for o in os_]
                os_ = [C.create_string_buffer(512) for _ in range(4)]; f(v + "_absorb_once")(st, *ms, z(n)); f(v + "_squeezeblocks")(*os_, z(2), st); [H.update(o.raw) for o in os_]
    return H.hexdigest()
def history(d, app, steps, static=None):
    """One process: load and use in the given order.  Returns [(lib, seed, digest)]."""
    hs, out, cnt, tape = {}, [], {}, None
    for s in steps:
        l = (s["kind"], s["impl"], s["k"])
        if s["do"] == "load":
            hs[l] = C.CDLL(app if l[0] == "app" else static or f"{d}/{PATHS[l]}", mode=os.RTLD_LAZY | os.RTLD_GLOBAL)
            if l[0] == "app":
                a = hs[l]; a.rng_set.argtypes = [C.c_void_p, C.c_size_t]; keep = []
                def tape(b): keep.append(C.create_string_buffer(b, len(b))); a.rng_set(keep[-1], len(b))
        else:
            sd = cnt.get(l, 0) % 3; cnt[l] = cnt.get(l, 0) + 1
            out.append((l, sd, use(hs[l], l, sd, tape)))
    return out
def c17(ctx):
    objs_ = {}
    th = threading.Thread(target=lambda: objs_.update(o=objects())); th.start()
    d = shared(); th.join()
    app = build.helper("app_rng", ["stub_rng.c"])
    F = facts(d, objs_["o"]); fp = f"{build.outdir()}/facts_{build.uniq()}.json"; json.dump(F, open(fp, "w"))
    ctx.cov["libraries"] = len(F["libs"]); ctx.cov["symbols_exported"] = sum(len(l["def"]) for l in F["libs"]); ctx.cov["own_symbols_reached_through_the_linker"] = sum(len(l["own"]) for l in F["libs"])
    ctx.cov["objects_linked_statically"] = len(F["objs"]); ctx.cov["published_sizes"] = len(F["sizes"])
    bad = False
    for cfg, kw in (("Link_facts.cfg", {}), ("Link_mc.cfg", dict(workers=8, extra=[]))):
        r = ctx.tlc(tlc.run("Link", cfg, env=dict(FACTS=fp), **kw))
        if not r["ok"]:
            bad = True; m = re.search(r"invariant of (\w+) is equal to FALSE|Invariant (\w+) is violated", r["out"])
            ctx.violation(f"C17 link: {(m.group(1) or m.group(2)) if m else "an invariant"} does not hold of the tree's libraries", dict(out=r["out"][-3000:], facts=witness(F)))
    if bad: return
    # every library alone, then generated histories
    need = {"kem": lambda i: [("fips", i, 0)] + ([("x4", "avx2", 0)] if i == "avx2" else []), "fips": lambda i: [], "x4": lambda i: []}
    st = lambda do, l: dict(do=do, kind=l[0], impl=l[1], k=l[2])
    alone = [[st("load", ("app", "", 0))] + [st("load", x) for x in need[l[0]](l[1])] + [st("load", l)] + [st("use", l)] * 3 for l in PATHS]
    n = ctx.pick(40, 1500)
    r, bs = tlc.behaviours("Link", "Link_gen.cfg", env=dict(FACTS=fp), workers=8, extra=["-simulate", f"num={n}", "-depth", "40", "-seed", str(ctx.rnd.randrange(1 << 40))])
    ctx.add("behaviours_generated", len(bs)); ctx.sample(bs[0]["used"] if bs else None)
    big = f"{build.outdir()}/everything.so"; build.link(big, [p for _, p in objs_["o"]] + [build.obj_async("ref", f"{build.HERE}/stub_rng.c", [], "s_ref").result()])
    stat = [[st("load", ("app", "", 0))] + [st("load", l) for l in PATHS] + [st("use", l) for l in R.sample(list(PATHS) * 4, 4 * len(PATHS))] for R in (random.Random(1), random.Random(2))]
    jobs = [(history, d, app, h) for h in alone] + [(history, d, big, h, big) for h in stat] + [(history, d, app, b["used"]) for b in bs]
    res = eng.gather(ctx, jobs, "C17 all builds in one process")
    if ctx.viol: return
    ids, vals, ev = {}, {}, []
    for h in res:
        for l, sd, g in h:
            # what a library computes is the same in both implementations, so calls are identified across them
            c = (l[0], l[2], sd); ev.append(dict(op="x", st=0, call=ids.setdefault(c, len(ids) + 1), res=vals.setdefault(g, len(vals) + 1), k=l[2], impl=l[1], note=f"{l}"))
    ctx.add("uses_performed", len(ev))
    eng.judge(ctx, None, "PureTrace", what="C17 builds in one process", traces=[ev])
def witness(F):
    """The facts, made short for a replay file."""
    out = dict(sizes=F["sizes"], libs=[])
    for l in F["libs"]:
        p = ns((l["kind"], l["impl"], l["k"]))
        out["libs"].append(dict(lib=p, foreign_exports=[s for s in l["def"] if not s.startswith(p)], need=l["need"]))
    seen = {}
    for o in F["objs"]:
        for s in o["def"]: seen.setdefault(s, []).append(o["obj"])
    out["defined_twice"] = {s: v for s, v in seen.items() if len(v) > 1}
    return out
