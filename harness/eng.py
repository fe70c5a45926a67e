"""Runs jobs that execute the code under test, each in its own child process, and
judges what they recorded with TLC."""
import ctypes, os, pickle, resource, select, signal, sys, time, traceback
import build, kyb, scen, tlc
from core import Violation
NPROC = int(os.environ.get("VERIF_PROCS", "8"))

LIBC = ctypes.CDLL(None)
class Crash(Exception): pass

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
def died(rc, x=""):
    """A program with the code under test in it was ended by a signal: so is the job."""
    if rc < 0:
        signal.signal(-rc, signal.SIG_DFL) if -rc not in (9, 19) else None
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); os.kill(os.getpid(), -rc); time.sleep(5)
def run_jobs(jobs, procs=None, limit=None):
    """jobs: list of (fn, args...).  Yields (index, status, value) in completion order;
    status ok, exc or crash.  A job that exceeds `limit' seconds of CPU or three times that hangs: a crash."""
    procs = procs or NPROC; limit = limit or (600 if THOROUGH else 120)
    todo = list(enumerate(jobs))[::-1]; live = {}
    sys.stdout.flush(); sys.stderr.flush()
    try:
        while todo or live:
            while todo and len(live) < procs:
                i, (fn, *a) = todo.pop()
                r, w = os.pipe(); pid = os.fork()
                if pid == 0:
                    rc = 0
                    try:
                        os.close(r); os.setpgid(0, 0); LIBC.prctl(1, signal.SIGKILL); signal.alarm(3 * limit); resource.setrlimit(resource.RLIMIT_CPU, (limit, limit + 20))
                        dn = os.open("/dev/null", os.O_WRONLY); os.dup2(dn, 2)
                        try: res = ("ok", fn(*a))
                        except BaseException: res = ("exc", traceback.format_exc())
                        data = pickle.dumps(res, protocol=4); off = 0
                        while off < len(data): off += os.write(w, data[off:off + (1 << 20)])
                    except BaseException: rc = 99
                    finally: os._exit(rc)
                os.close(w); live[r] = (i, pid, bytearray())
            rd, _, _ = select.select(list(live), [], [], 5)
            for r in rd:
                d = os.read(r, 1 << 20)
                if d: live[r][2].extend(d); continue
                i, pid, data = live.pop(r); os.close(r)
                _, st = os.waitpid(pid, 0)
                if os.WIFSIGNALED(st): yield i, "crash", f"signal {signal.Signals(os.WTERMSIG(st)).name}"
                elif st or not data: yield i, "crash", f"exit status {st >> 8}"
                else: yield (i,) + pickle.loads(bytes(data))
    finally:
        for r, (i, pid, _) in live.items():
            for f in (os.killpg, os.kill):
                try: f(pid, signal.SIGKILL)
                except OSError: pass
            os.waitpid(pid, 0); os.close(r)

def gather(ctx, jobs, what="", procs=None, limit=None):
    """Concatenated results of all jobs; a job killed by a signal twice is a violation."""
    out, errs = [None] * len(jobs), []
    for i, st, v in run_jobs(jobs, procs, limit):
        if st == "crash":
            again = list(run_jobs([jobs[i]], 1, limit))[0]
            if again[1] == "crash":
                ctx.violation(f"{what}: the code under test ended the process ({v})", dict(job=repr(jobs[i])[:2000], how=v))
                if any(x in v for x in ("XCPU", "ALRM", "KILL")): break          # it does not end; do not wait for the others
                continue
            st, v = again[1:]
        if st == "exc": errs.append(v); continue
        out[i] = v
    if errs:
        if not ctx.viol: raise RuntimeError(f"{len(errs)} harness errors, first:\n" + errs[0])
        print("harness errors:", errs[0])
    return [x for x in out if x is not None]

def flat(xs): return [e for x in xs for e in x]

# ------------------------------------------------------------------ KemTrace
STATEFUL = {"tape", "keypair", "enc"}
def strip(e): return {k: v for k, v in e.items() if k != "tbl"}
def weight(e):
    w = 1 if "tbl" in e else 6
    return w * (1 + .25 * e.get("k", 2))
def judge(ctx, events, module="KemTrace", procs=None, what="", traces=None):
    """Validates stateless events (or given traces) with TLC; every rejected event is re-checked alone."""
    if traces is None:
        n0 = len(events)
        events = [e for e in events if not e.get("foreign")]
        if n0 - len(events): ctx.cov["oracle_world_events_skipped"] = ctx.cov.get("oracle_world_events_skipped", 0) + n0 - len(events)
        if not events: return 0
        traces = tlc.split(events, procs or NPROC, weight)
    ctx.cov["traces_validated_against_impl"] += sum(len(t) for t in traces)
    rounds = 0
    while traces and rounds < 4:
        rounds += 1
        s, t, fails = tlc.trace_check(module, traces, procs=procs or NPROC)
        ctx.cov["states"] += s; ctx.cov["transitions"] += t
        nxt = []
        for j, idx, out in fails:
            tr = traces[j]
            if idx >= len(tr): raise RuntimeError("trace failure past its end\n" + out)
            bad = tr[idx]
            alone = tr[:idx + 1] if bad.get("op") in STATEFUL or "op" not in bad or module != "KemTrace" else [bad]
            _, _, f2 = tlc.trace_check(module, [alone], procs=1)
            if f2:
                ctx.violation(f"{what or module}: event {bad.get('op')} k={bad.get('k')} impl={bad.get('impl')} note={bad.get('note')} is no step of {module}",
                              dict(module=module, event=bad if len(str(bad)) < 400000 else strip(bad)))
            if idx + 1 < len(tr) and module == "KemTrace": nxt.append(tr[idx + 1:])
        traces = nxt
    return len(events) if events else 0

# --------------------------------------------------------------- oracle world
def worlds(ctx, modes=("real", "orc"), ks=(2, 3, 4), impls=("ref", "avx2", "model")):
    """Builds; returns the (impl, k) pairs whose oracle world behaves like the real one."""
    res = build.build_all(modes=modes, ks=ks, impls=impls)
    if "orc" not in modes: return set()
    pairs = [(i, k) for i in impls for k in ks if res.get((i, k, "orc"))]
    ok = set()
    for n, st, v in run_jobs([(probe, i, k) for i, k in pairs]):
        if st == "ok" and v: ok.add(pairs[n])
    ctx.cov["oracle_worlds"] = len([x for x in ok if x[0] != "model"])
    return ok
def probe(impl, k):
    a, b = kyb.Lib(impl, k, "real"), kyb.Lib(impl, k, "orc")
    c = bytes(range(64)); m = bytes(range(7, 39))
    x, y = a.keypair_derand(c), b.keypair_derand(c)
    if x != y: return False
    e, f = a.enc_derand(x[1], m), b.enc_derand(x[1], m)
    if e != f: return False
    ct2 = bytes([e[1][0] ^ 1]) + e[1][1:]
    return a.dec(e[1], x[2]) == b.dec(e[1], x[2]) and a.dec(ct2, x[2]) == b.dec(ct2, x[2]) and not b.foreign()
