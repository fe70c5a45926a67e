"""Builds shared objects from /repo's working tree (never writes to /repo).

  lib(impl, k, mode)   impl in ref, avx2; mode: real (repo's hash code) or orc
                       (programmable recording oracle); randomness is a tape.
Objects are cached under $VERIF_BUILD/<hash of every source file>."""
import hashlib, os, re, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
CC = os.environ.get("VERIF_CC", "gcc")
CF = {"ref": "-O3 -fomit-frame-pointer".split(),
      "avx2": "-mavx2 -mbmi2 -mpopcnt -march=x86-64-v3 -mtune=generic -O3 -fomit-frame-pointer".split()}
CF["model"] = CF["avx2"]      # model.c of the harness
IMPL_DIRS = ("ref", "avx2")
DEF = {"ref": "kem.c indcpa.c polyvec.c poly.c ntt.c cbd.c reduce.c verify.c".split(),
       "avx2": "kem.c indcpa.c polyvec.c poly.c fq.S shuffle.S ntt.S invntt.S basemul.S consts.c rejsample.c cbd.c verify.c".split()}

import itertools
_n = itertools.count()
def uniq(): return f"{os.getpid()}_{next(_n)}"
class BuildError(Exception): pass

def srchash():
    h = hashlib.sha256()
    fs = [f for d in ("ref", "avx2") for f in glob.glob(f"{REPO}/{d}/**/*", recursive=True)
          if os.path.isfile(f) and f.endswith((".c", ".h", ".S", ".inc", ".macros", "Makefile"))]
    fs += glob.glob(HERE + "/*.[ch]") + [__file__]
    for f in sorted(fs):
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:20]

_dir = None
def outdir():
    global _dir
    if _dir is None:
        _dir = os.path.join(BUILD, srchash()); os.makedirs(_dir, exist_ok=True)
    return _dir

def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError(" ".join(map(str, cmd)) + "\n" + r.stdout[-4000:])
    return r.stdout

def sources(impl):
    """SOURCES of the Makefile, so a file split off by a refactoring is picked up."""
    try:
        txt = open(f"{REPO}/{impl}/Makefile").read().replace("\\\n", " ")
        m = re.search(r"^SOURCES\s*=\s*(.*)$", txt, re.M)
        s = m.group(1).split()
        if s and all(os.path.exists(f"{REPO}/{impl}/{f}") for f in s): return s
    except Exception: pass
    return DEF[impl]

def hash_sources(impl):
    return ["fips202.c"] + (["fips202x4.c", "keccak4x/KeccakP-1600-times4-SIMD256.c"] if impl == "avx2" else [])

def cc(out, srcs, flags, shared=True):
    if os.path.exists(out): return out
    tmp = f"{out}.{uniq()}.tmp"
    run([CC] + (["-shared", "-fPIC"] if shared else []) + flags + srcs + ["-o", tmp, "-z", "noexecstack"])
    os.rename(tmp, out)
    return out

_ex = ThreadPoolExecutor(8)
def obj(impl, src, flags, tag):
    """One object file; src is relative to the implementation's directory or absolute."""
    d = f"{REPO}/{impl}"
    path = src if src.startswith("/") else f"{d}/{src}"
    out = f"{outdir()}/{tag}_{os.path.basename(path)}.o"
    if not os.path.exists(out):
        tmp = f"{out}.{uniq()}.tmp"
        run([CC, "-c", "-fPIC", "-w"] + CF[impl] + [f"-I{d}", f"-I{HERE}"] + flags + [path, "-o", tmp])
        os.rename(tmp, out)
    return out

def pmap(fn, items):
    """Maps with threads of its own: the items may wait for objects built on _ex."""
    with ThreadPoolExecutor(8) as ex: return list(ex.map(fn, items))
_memo = {}
def obj_async(impl, src, flags, tag):
    key = (impl, src, tag)
    if key not in _memo: _memo[key] = _ex.submit(obj, impl, src, flags, tag)
    return _memo[key]

def hash_objs(impl, flags=(), tag=""):
    return [obj_async(impl, f, list(flags), f"h_{impl}{tag}") for f in hash_sources(impl)][::-1]

def link(out, objs, extra=()):
    if not os.path.exists(out):
        tmp = f"{out}.{uniq()}.tmp"
        run([CC, "-shared", "-fPIC", "-Wl,-Bsymbolic", "-z", "noexecstack"] + objs + ["-o", tmp] + list(extra))
        os.rename(tmp, out)
    return out

def lib_async(impl, k, mode, flags=(), tag=""):
    """Futures of the objects of one library; pass to lib_finish."""
    out = f"{outdir()}/kyb_{impl}{k}_{mode}{tag}.so"
    if os.path.exists(out): return (out, [], flags)
    kf = [f"-DKYBER_K={k}"] + list(flags)
    if impl == "model":
        fs = [obj_async(impl, f"{HERE}/model.c", kf + (["-DORACLE"] if mode == "orc" else []), f"o_{mode}{k}"), obj_async(impl, f"{HERE}/stub_rng.c", [], "s_model")]
        if mode == "orc": fs += [obj_async("ref", f"{HERE}/stub_oracle.c", [], "s_ref"), obj_async(impl, f"{HERE}/hk.c", [], "s_model")]
        return (out, fs, flags)
    fs = [obj_async(impl, f, kf, f"o_{impl}{k}{tag}") for f in sources(impl) + ["symmetric-shake.c"]]
    fs.append(obj_async(impl, f"{HERE}/stub_rng.c", [], f"s_{impl}"))
    if mode == "real": fs += hash_objs(impl, flags, tag)
    else:
        fs.append(obj_async(impl, f"{HERE}/stub_oracle.c", ["-DORC_X4"] if impl == "avx2" else [], f"s_{impl}"))
        fs.append(obj_async(impl, f"{HERE}/hk.c", [], f"s_{impl}"))
    return (out, fs, flags)
def lib_finish(h):
    out, fs, flags = h
    if not fs: return out
    return link(out, [f.result() for f in fs], [f for f in flags if f.startswith("-fsanitize")])

def lib(impl, k, mode, flags=(), tag=""):
    return lib_finish(lib_async(impl, k, mode, flags, tag))

def hashlib_so(impl):
    return link(f"{outdir()}/fips_{impl}.so", [f.result() for f in hash_objs(impl)])

def helper(name, srcs, flags=()):
    return cc(f"{outdir()}/{name}.so", [f"{HERE}/{s}" for s in srcs], ["-O2", f"-I{HERE}"] + list(flags))

def build_all(modes=("real", "orc"), ks=(4, 3, 2), impls=("avx2", "ref", "model")):
    if "avx2" in impls and "real" in modes: hash_objs("avx2")      # the slowest file first
    jobs = {(i, k, m): lib_async(i, k, m) for m in modes for k in ks for i in impls}
    hk = _ex.submit(helper, "hk", ["hk.c"])
    res = {}
    for j, h in jobs.items():
        try: res[j] = lib_finish(h)
        except BuildError:
            if j[2] == "orc": res[j] = None      # oracle world not linkable: fall back to the real one
            else: raise
    hk.result()
    return res

if __name__ == "__main__":
    import time
    t = time.time(); r = build_all(); print(len(r), "libraries", round(time.time() - t, 1), "s", outdir())
