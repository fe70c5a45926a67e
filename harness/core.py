"""Common driver of all checks: tiers, seeds, violations, known findings, evidence."""
import json, os, random, sys, time, traceback
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what); self.what, self.replay = what, replay

def jsonable(x):
    if isinstance(x, (bytes, bytearray)): return x.hex()
    if isinstance(x, dict): return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)): return [jsonable(v) for v in x]
    return x

class Ctx:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.seed0 = self.seed
        self.rnd = random.Random(f"{prop}/{self.seed}")
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.viol = []
        self.known = []
    @property
    def thorough(self): return self.tier == "thorough"
    def pick(self, q, t): return t if self.thorough else q
    def budget(self):
        """Seconds the exploration phases may take in total."""
        return float(os.environ.get("VERIF_BUDGET", self.pick(60, 720)))
    def left(self): return self.budget() - (time.time() - self.t0)
    def add(self, key, n=1): self.cov[key] = self.cov.get(key, 0) + n
    def tlc(self, r):
        """Accounts one TLC run."""
        self.cov["states"] += r["distinct"]; self.cov["transitions"] += max(0, r["states"] - 1)
        return r
    def sample(self, s, limit=6):
        if len(self.cov["samples"]) < limit: self.cov["samples"].append(jsonable(s))
    def violation(self, what, replay):
        self.viol.append((what, jsonable(replay)))
        if len(self.viol) >= 5: raise Violation("enough", None)
    def findings(self):
        p = os.path.join(ROOT, "known_findings.txt")
        if not os.path.exists(p): return []
        out = []
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=" + self.prop + " "): out.append(line.split(" ", 2)[2])
        return out

def main(prop, level, fn):
    ctx = Ctx(prop, level)
    rc = 0
    try:
        fn(ctx)
    except Violation as v:
        if v.replay is not None: ctx.viol.append((v.what, jsonable(v.replay)))
    except Exception:
        if not ctx.viol: raise
        traceback.print_exc()                  # a violation was found before: report it
    wall = time.time() - ctx.t0
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=ctx.tier, seed=ctx.seed0, level=level, coverage=ctx.cov,
              assumptions=ctx.assumptions, wall_s=round(wall, 2), violations=len(ctx.viol))
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k in ctx.known: print(f"KNOWN-FINDING: property={prop} {k}")
    if ctx.viol:
        d = os.path.join(ROOT, "replays"); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{prop}_{ctx.tier}_{ctx.seed0}.json")
        with open(p, "w") as f: json.dump([dict(what=w, replay=r) for w, r in ctx.viol], f, indent=1)
        for w, _ in ctx.viol: print("  " + w)
        print(f"VIOLATION property={prop} replay={p}")
        rc = 1
    else:
        print(f"{prop}: held ({ctx.tier}, {wall:.1f} s): " + json.dumps({k: v for k, v in ctx.cov.items() if k != "samples"}))
    return rc
