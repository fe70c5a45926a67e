"""Runs TLC and reports what it did."""
import json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class TlcError(Exception): pass

def run(module, cfg=None, env=None, timeout=600, workers=1, xmx="2500m", extra=(), keep=False, xss="64m"):
    """Returns dict(ok, violated, out, states, distinct, depth, wall)."""
    meta = tempfile.mkdtemp(prefix="tlc_")
    e = dict(os.environ); e.update({k: str(v) for k, v in (env or {}).items()})
    cfg = cfg or module + ".cfg"
    cmd = ["java", "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", f"-Xmx{xmx}", f"-Xss{xss}",
           f"-Djava.io.tmpdir={meta}", "-Dtlc2.TLC.stopAfter=0", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
           "-config", cfg] + list(extra) + [module + ".tla"]
    cmd.remove("-Dtlc2.TLC.stopAfter=0")
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TlcError(f"{module}: TLC ran past {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    o = r.stdout
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", o.replace(",", "", 0))
    d = re.search(r"depth of the complete state graph search is (\d+)", o)
    res = dict(rc=r.returncode, out=o, states=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0,
               depth=int(d.group(1)) if d else 0, wall=time.time() - t, module=module)
    sim = "-simulate" in extra
    res["ok"] = r.returncode == 0 and ("No error has been found" in o or (sim and "The number of states generated" in o))
    if sim:
        m = re.search(r"The number of states generated: (\d+)", o)
        if m: res["states"] = res["distinct"] = int(m.group(1))
    # 10..13: assumption, deadlock, safety, liveness violations; POSTCONDITION counts as a safety violation
    res["violated"] = not res["ok"] and bool(re.search(r"is violated|[Pp]ost.?condition|Deadlock reached|is false|is equal to FALSE", o))
    if not res["ok"] and not res["violated"]:
        raise TlcError(f"{module} {cfg}: rc {r.returncode}\n" + o[-3000:])
    return res

def write_ndjson(path, events):
    with open(path, "w") as f:
        for ev in events: f.write(json.dumps(ev, separators=(",", ":")) + "\n")

def trace_check(module, events, cfg=None, procs=8, timeout=600, env=None, chunk=None, xmx="2500m"):
    """Checks every event list against a trace spec.  events: list of traces, each a
    list of events.  Returns (states, transitions, failures); failures: (trace, index)."""
    d = tempfile.mkdtemp(prefix="trace_")
    try:
        def one(j):
            p = os.path.join(d, f"t{j}.ndjson"); write_ndjson(p, events[j])
            r = run(module, cfg, env=dict(env or {}, TRACE=p), timeout=timeout, xmx=xmx)
            os.unlink(p)
            n = len(events[j])
            return (j, r, None if r["ok"] else max(0, r["depth"] - 1))
        with ThreadPoolExecutor(procs) as ex: rs = list(ex.map(one, range(len(events))))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    states = sum(r["distinct"] for _, r, _ in rs); trans = sum(max(0, r["states"] - 1) for _, r, _ in rs)
    fails = [(j, idx, r["out"][-1500:]) for j, r, idx in rs if idx is not None]
    return states, trans, fails

def split(events, procs=8, weight=lambda e: 1):
    """Balanced split into at most procs traces (order kept inside a trace)."""
    ts = [[] for _ in range(min(procs, len(events)) or 1)]; w = [0] * len(ts)
    for e in sorted(events, key=lambda e: -weight(e)):
        i = w.index(min(w)); ts[i].append(e); w[i] += weight(e)
    return [t for t in ts if t]

def behaviours(module, cfg, tag="@B ", **kw):
    """Runs TLC and returns (result, list of JSON values printed by the spec with the tag)."""
    r = run(module, cfg, **kw)
    out = []
    for line in r["out"].splitlines():
        if line.startswith('"' + tag): out.append(json.loads(json.loads(line)[len(tag):]))
    r["out"] = r["out"][-2000:]
    return r, out
