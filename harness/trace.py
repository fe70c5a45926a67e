"""Records what calls do: the sequence of executed instructions and of accessed addresses (valgrind's
memory tracer over a static program), and the operands of divisions (breakpoints in the same program)."""
import os, re, shutil, struct, subprocess, tempfile
import build
from kyb import PK, SK, CT, NAME
ARENA = 8192
KD, ED, DEC, KG, ENC = range(5)
OPS = ("keypair_derand", "enc_derand", "dec", "keypair", "enc")
# (size, is input) of every argument, in the order of the prototype
def frame(op, k):
    P, S, X = PK[k], SK[k], CT[k]
    return {KD: [(P, 0), (S, 0), (64, 1)], ED: [(X, 0), (32, 0), (P, 1), (32, 1)], DEC: [(32, 0), (X, 1), (S, 1)],
            KG: [(P, 0), (S, 0)], ENC: [(X, 0), (32, 0), (P, 1)]}[op]
def trc():
    out = f"{build.outdir()}/trc"
    if not os.path.exists(out):
        t = f"{out}.{build.uniq()}"; build.run(["gcc", "-O2", "-w", f"{build.HERE}/trc.c", "-o", t]); os.rename(t, out)
    return out
FLAGS = {"": (None, ["-O3"]), "gcc-Os": ("gcc", ["-Os"]), "gcc-O2": ("gcc", ["-O2"]), "gcc-O1": ("gcc", ["-O1"]),
         "clang-O3": ("clang", ["-O3"]), "clang-Os": ("clang", ["-Os"]), "clang-O2": ("clang", ["-O2"]), "clang-O1": ("clang", ["-O1"])}
def exe(impl, k, var=""):
    """The driver linked with one library, objects as for the shared ones or with another compiler/level."""
    out = f"{build.outdir()}/trace_{impl}{k}{var}"
    if os.path.exists(out): return out
    kf = [f"-DKYBER_K={k}"]
    if not var:
        fs = [build.obj_async(impl, f, kf, f"o_{impl}{k}") for f in build.sources(impl) + ["symmetric-shake.c"]] + build.hash_objs(impl)
        os_ = [f.result() for f in fs]
    else:
        cc, lv = FLAGS[var]; os_ = []
        for f in build.sources(impl) + ["symmetric-shake.c"] + build.hash_sources(impl):
            h = f in build.hash_sources(impl); o = f"{build.outdir()}/v{var}_{impl}{'' if h else k}_{os.path.basename(f)}.o"
            if not os.path.exists(o):
                t = f"{o}.{build.uniq()}"
                build.run([cc, "-c", "-w"] + [x for x in build.CF[impl] if x != "-O3"] + lv + kf + [f"-I{build.REPO}/{impl}", f"{build.REPO}/{impl}/{f}", "-o", t]); os.rename(t, o)
            os_.append(o)
    os_.append(build.obj_async(impl, f"{build.HERE}/stub_rng.c", [], f"s_{impl}").result())
    tmp = f"{out}.{build.uniq()}.tmp"
    base = ["gcc", "-O2", "-w", "-static", "-no-pie", "-z", "noexecstack", f"-DSET={NAME[k]}", f"-DIMPL={impl}", f"{build.HERE}/trace_drv.c"] + os_ + ["-o", tmp]
    try: build.run(base + [f"-Wl,--wrap=pqcrystals_kyber_fips202_{impl}_sha3_512"])
    except build.BuildError: build.run(base + ["-DNOWRAP"])
    os.rename(tmp, out); return out
_syms = {}
def syms(x):
    if x not in _syms:
        r = subprocess.run(["nm", x], capture_output=True, text=True).stdout
        _syms[x] = {l.split()[2]: int(l.split()[0], 16) for l in r.splitlines() if len(l.split()) == 3}
    return _syms[x]
def record(op, args, k, offs=(0, 0, 0, 0), fix=None, tape=b"", fill=0xA5):
    """args: input bytes or None for an output, in prototype order."""
    fr = frame(op, k); b = struct.pack("<III", op, fix is not None, fill) + (fix or bytes(32)) + struct.pack("<I", len(tape)) + tape
    for i in range(4):
        if i >= len(fr): b += struct.pack("<III", 0, 0, 0); continue
        n, isin = fr[i]; d = args[i]
        assert not isin or len(d) == n
        b += struct.pack("<III", offs[i], n, isin) + (d if isin else b"")
    return b
def results(data, recs, k):
    """status, fixed, per buffer (changed bytes around it, content) for each record."""
    out, p = [], 0
    for op in recs:
        st, fx, dc, dh = struct.unpack_from("<iIQQ", data, p); p += 24; fr = frame(op, k); bufs = []
        for i in range(4):
            bad, = struct.unpack_from("<I", data, p); p += 4; n = fr[i][0] if i < len(fr) else 0
            bufs.append((bad, data[p:p + n])); p += n
        out.append((st, fx, bufs, (dc, dh)))
    return out
def run(x, k, ops, job, dump=None, windows=()):
    """Traced run: list of windows dict(n, ni, nl, ns, h, foreign, L, S, X) and the results."""
    A = syms(x); d = tempfile.mkdtemp(prefix="trace_")
    try:
        open(d + "/job", "wb").write(job)
        r, w = os.pipe()
        p = subprocess.Popen(["valgrind", "--tool=lackey", "--trace-mem=yes", "--basic-counts=no", f"--log-fd={w}", x, d + "/job", d + "/res"],
                             pass_fds=[w], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(PATH="/usr/bin:/bin"))
        os.close(w)
        q = subprocess.Popen([trc(), "%x" % A["trace_mark"], "%x" % A["trace_arena"], str(ARENA), "4", "400000", "%x" % A["_end"]] + ([dump] + [str(i) for i in windows] if dump else []),
                             stdin=r, stdout=subprocess.PIPE, text=True)
        os.close(r)
        o = q.communicate()[0]; rc = p.wait()
        res = open(d + "/res", "rb").read() if os.path.exists(d + "/res") else b""
    finally: shutil.rmtree(d, ignore_errors=True)
    ws = []
    for l in o.splitlines():
        f = l.split(); e = dict(n=int(f[1]), ni=int(f[2]), nl=int(f[3]), ns=int(f[4]), h=f[5], foreign=int(f[6]), L={}, S={}, X=[])
        for t in f[7:]:
            tag, iv = t.split(":"); iv = [tuple(map(int, v.split("-"))) for v in iv.split(",")]
            if tag == "X": e["X"] = iv
            else: e[tag[1]][int(tag[0])] = iv
        ws.append(e)
    if len(ws) != len(ops): return rc or 1, ws, None
    return rc, ws, results(res, ops, k)

# ------------------------------------------------------------------ divisions
REG = {}
for i, r in enumerate("ax cx dx bx sp bp si di".split()):
    for p in ("r", "e", ""): REG[p + r] = (i, {"r": 8, "e": 4, "": 2}[p])
    if i < 4: REG[r[0] + "l"] = (i, 1); REG[r[0] + "h"] = (i | 16, 1)
    else: REG[r + "l"] = (i, 1)
for i in range(8, 16):
    for p, n in (("", 8), ("d", 4), ("w", 2), ("b", 1)): REG[f"r{i}{p}"] = (i, n)
_div = {}
def divisions(impl, k, var=""):
    """Sites of division and square root instructions of the library's own code in the program."""
    if (impl, k, var) not in _div: _div[impl, k, var] = _divisions(impl, k, var)
    return _div[impl, k, var]
def _divisions(impl, k, var):
    x = exe(impl, k, var); own = set()
    pre = f"{build.outdir()}/"
    fs = [build.obj(impl, f, [f"-DKYBER_K={k}"], f"o_{impl}{k}") for f in build.sources(impl) + ["symmetric-shake.c"]] + [build.obj(impl, f, [], f"h_{impl}") for f in build.hash_sources(impl)] if not var else \
         [f"{pre}v{var}_{impl}{'' if f in build.hash_sources(impl) else k}_{os.path.basename(f)}.o" for f in build.sources(impl) + ["symmetric-shake.c"] + build.hash_sources(impl)]
    D = re.compile(r"\s+[0-9a-f]+:\s+((?:rep[nz]? |notrack )?(?:v?div[sp][sd]|v?sqrt[sp][sd]|i?div[bwlq]?|fi?divr?p?[sl]?|fsqrt|v?rsqrt\w+)\b.*)")
    for o in fs:
        fn = None
        for l in subprocess.run(["objdump", "-d", "--no-show-raw-insn", o], capture_output=True, text=True).stdout.splitlines():
            m = re.match(r"[0-9a-f]+ <([^>]+)>:", l)
            if m: fn = m.group(1)
            elif D.match(l): own.add(fn)
    if not own: return []
    out, fn = [], None
    for l in subprocess.run(["objdump", "-d", "--no-show-raw-insn", x], capture_output=True, text=True).stdout.splitlines():
        m = re.match(r"[0-9a-f]+ <([^>]+)>:", l)
        if m: fn = m.group(1); continue
        m = D.match(l) if fn in own else None
        if m:
            at = int(l.split(":")[0], 16); ins = m.group(1).split("#")[0].strip(); out.append((at, fn, ins))
    return out
def encode(at, ins):
    op, _, arg = ins.partition(" "); arg = arg.strip(); arg = arg.split()[0] if arg.startswith(("%", "0x", "-0x", "(")) else arg
    if not re.match(r"i?div[bwlq]?$", op):
        m = 0
        for r in re.findall(r"%[xy]mm(\d+)", arg): m |= 1 << int(r)
        return struct.pack("<QQBBBBB", at, m, 2, 0, 0, 0, 0)
    last = arg.split(",%")[-1] if re.match(r"%\w+,%", arg) else arg
    if last.startswith("%") and "(" not in last:
        i, n = REG[last[1:]]; return struct.pack("<QQBBBBB", at, 0, 0, i, 255, 0, n)
    m = re.match(r"(-?0x[0-9a-f]+)?\(?(%\w+)?(?:,(%\w+),?(\d)?)?\)?$", arg); n = {"b": 1, "w": 2, "l": 4, "q": 8}[op[-1]]
    disp = int(m.group(1) or "0", 16); base = m.group(2); idx = m.group(3)
    if base == "%rip": raise ValueError("rip-relative divisor")
    return struct.pack("<QqBBBBB", at, disp, 1, REG[base[1:]][0] if base else 255, REG[idx[1:]][0] if idx else 255, int(m.group(4) or 1), n)
def run_div(x, k, ops, job, sites):
    """Native run with the division operands recorded."""
    d = tempfile.mkdtemp(prefix="trace_")
    try:
        open(d + "/job", "wb").write(job); f = b""
        for at, fn, ins in sites:
            try: f += encode(at, ins)
            except (ValueError, KeyError, AttributeError): pass         # operands in another form: the instruction is still in the trace
        open(d + "/sites", "wb").write(f)
        rc = subprocess.run([x, d + "/job", d + "/res", d + "/sites"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(PATH="/usr/bin:/bin")).returncode
        return rc, results(open(d + "/res", "rb").read(), ops, k) if rc == 0 else None
    finally: shutil.rmtree(d, ignore_errors=True)
