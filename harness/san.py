"""The sources under the address sanitizer: every access is to an object that exists, internal arrays included."""
import os, shutil, struct, subprocess, tempfile
import build
from kyb import NAME
FL = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address"]
ENV = dict(PATH="/usr/bin:/bin", ASAN_OPTIONS="exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:symbolize=0:max_malloc_fill_size=4096")
def objs(impl, k):
    kf = FL + [f"-DKYBER_K={k}"]
    return [build.obj_async(impl, f, kf, f"san_{impl}{k}") for f in build.sources(impl) + ["symmetric-shake.c"]] + build.hash_objs(impl, FL, "san") + [build.obj_async(impl, f"{build.HERE}/stub_rng.c", [], f"s_{impl}")]
def exe(impl, k):
    out = f"{build.outdir()}/san_{impl}{k}"
    if not os.path.exists(out):
        os_ = [f.result() for f in objs(impl, k)]; tmp = f"{out}.{build.uniq()}.tmp"
        build.run([build.CC, "-w"] + FL + [f"-DSET={NAME[k]}", f"-DIMPL={impl}", f"-I{build.REPO}/{impl}", f"-I{build.HERE}"] + (["-DX4", "-mavx2"] if impl == "avx2" else []) + [f"{build.HERE}/san_drv.c"] + os_ + ["-o", tmp])
        os.rename(tmp, out)
    return out
def bulk_objs(impl, k):
    kf = FL + [f"-DKYBER_K={k}"]
    return [build.obj_async(impl, f, kf, f"san_{impl}{k}") for f in build.sources(impl) + ["symmetric-shake.c"]] + [build.obj_async(impl, f"{build.HERE}/stub_rng.c", [], f"s_{impl}"),
        build.obj_async(impl, f"{build.HERE}/stub_oracle.c", FL + (["-DORC_X4"] if impl == "avx2" else []), f"sans_{impl}"), build.obj_async(impl, f"{build.HERE}/hk.c", [], f"s_{impl}")]
def bulk_exe(impl, k):
    """None if the oracle cannot stand in for this tree's hash functions."""
    out = f"{build.outdir()}/sanb_{impl}{k}"
    if not os.path.exists(out):
        os_ = [f.result() for f in bulk_objs(impl, k)]; tmp = f"{out}.{build.uniq()}.tmp"
        try: build.run([build.CC, "-w"] + FL + [f"-DSET={NAME[k]}", f"-DKK={k}", f"-DIMPL={impl}", "-DORACLE", f"-I{build.HERE}", f"{build.HERE}/san_bulk.c"] + os_ + ["-o", tmp])
        except build.BuildError: return None
        os.rename(tmp, out)
    return out
def bulk(x, kind, seed, per, n):
    """Digests and statuses of n batches, as far as they got; the report."""
    d = tempfile.mkdtemp(prefix="san_")
    try:
        q = subprocess.run([x, d + "/res", str(kind), str(seed), str(per), str(n)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=ENV)
        r = [tuple(map(int, l.split())) for l in open(d + "/res").read().splitlines()] if os.path.exists(d + "/res") else []
    finally: shutil.rmtree(d, ignore_errors=True)
    if q.returncode == 0: return r, None
    err = q.stderr.decode("latin1"); l = [x for x in err.splitlines() if "ERROR" in x]
    if not l and q.returncode not in (-11, -7, -4, -6, -24, -9, -14): raise RuntimeError(f"{x}: {q.returncode} {err[-500:]}")
    return r, (l[0].split("ERROR: ")[-1][:200] if l else f"signal {-q.returncode}")
def rng_exe():
    out = f"{build.outdir()}/san_rng"
    if not os.path.exists(out):
        tmp = f"{out}.{build.uniq()}.tmp"; d = f"{build.REPO}/ref/nistkat"
        try: build.run([build.CC, "-w"] + FL + [f"-I{d}", f"{d}/rng.c", f"{build.HERE}/san_rng.c", f"{build.HERE}/stub_evp.c", "-o", tmp])
        except build.BuildError: return None
        os.rename(tmp, out)
    return out
def execute(x, job):
    d = tempfile.mkdtemp(prefix="san_")
    try:
        open(d + "/job", "wb").write(job)
        q = subprocess.run([x, d + "/job", d + "/res"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=ENV)
        data = open(d + "/res", "rb").read() if os.path.exists(d + "/res") else b""
    finally: shutil.rmtree(d, ignore_errors=True)
    if q.returncode == 0: return data, None
    err = q.stderr.decode("latin1"); l = [x for x in err.splitlines() if "ERROR" in x]
    if not l and q.returncode not in (-11, -7, -4, -6, -24, -9, -14): raise RuntimeError(f"{x}: {q.returncode} {err[-500:]}")
    return data, (l[0].split("ERROR: ")[-1][:200] if l else f"signal {-q.returncode}")
def rec(op, args, v=0, al=0, tape=b"", cuts=()):
    """args: bytes (an input) or an int (an output of that length)."""
    b = struct.pack("<IIIII", op, len(args), v, al, len(tape)) + tape
    for a in args: b += struct.pack("<II", a, 0) if isinstance(a, int) else struct.pack("<II", len(a), 1) + a
    return b + struct.pack("<I", len(cuts)) + b"".join(struct.pack("<I", c) for c in cuts)
def perform(x, recs):
    """Runs records [(bytes, arg lengths)]: list of (status, buffers) and None, or the report of the first faulting one."""
    data, rep = execute(x, b"".join(r for r, _ in recs)); out, p = [], 0
    for _, lens in recs:
        if p + 4 + sum(lens) > len(data): break
        st, = struct.unpack_from("<i", data, p); p += 4; bs = []
        for n in lens: bs.append(data[p:p + n]); p += n
        out.append((st, bs))
    if rep is None and len(out) < len(recs): raise RuntimeError(f"{x}: {len(out)} of {len(recs)} calls")
    return out, rep
def expand(R, E, D, xor, n):
    """Histories of rng.c: [(record, [expected (status, bytes)])]."""
    out = []
    for _ in range(n):
        if R.random() < .5:
            e, q = R.randbytes(48), R.choice([b"", R.randbytes(48)]); rq = [R.choice([0, 1, 15, 16, 17, 31, 32, 33, 48, R.randrange(500)]) for _ in range(R.randrange(1, 6))]
            d = D(E); d.init(e, q); want = [(0, d.gen(m)) for m in rq]
            out.append((struct.pack("<I", 0) + e + struct.pack("<I", 1 if q else 0) + (q or bytes(48)) + struct.pack("<II", 0, len(rq)), rq, want))
        else:
            s, dv = R.randbytes(32), R.randbytes(8); mx = R.choice([R.randrange(1, 400), R.randrange(1 << 16), (1 << 32) - 1]); rq = [R.choice([0, 1, 15, 16, 17, 31, 32, 33, R.randrange(300)]) for _ in range(R.randrange(1, 7))]
            pos = 0; want = [(0, b"")]
            for m in rq:
                if m >= mx - pos: want.append((-3, b"\xA5" * m)); continue
                b0 = pos // 16; c = b"".join(dv + mx.to_bytes(4, "big") + (b0 + i).to_bytes(4, "big") for i in range((m + 31) // 16 + 1))
                want.append((0, E(s, c)[pos - 16*b0:][:m])); pos += m
            out.append((struct.pack("<I", 1) + s + bytes(16) + struct.pack("<I", 1) + dv + bytes(40) + struct.pack("<II", mx, len(rq)), rq, want))
    return out
def run_rng(x, hs):
    """For each history what came back [(status, bytes)], as far as it got; and the report."""
    data, rep = execute(x, b"".join(h + b"".join(struct.pack("<I", m) for m in rq) for h, rq, _ in hs)); p = 0; out = []
    for h, rq, want in hs:
        got = []
        for _, w in want:
            if p + 4 + len(w) > len(data): break
            st, = struct.unpack_from("<i", data, p); got.append((st, data[p + 4:p + 4 + len(w)])); p += 4 + len(w)
        out.append(got)
        if len(got) < len(want): break
    return out, rep
