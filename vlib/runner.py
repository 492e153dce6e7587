"""Run the check of one property: discharge the proof obligations, run the bounded
stand-ins, decide, write the evidence file.

  verifier accepts everything, bounded runs clean   -> exit 0
  bounded run finds a failing input                 -> VIOLATION with that input, exit 1
  an obligation fails (annotations fit the code)    -> search for an input on the real code;
        found: VIOLATION with it; not found: VIOLATION ... no-failing-input-found, exit 1
  an obligation is undecided (timeout, the code is no longer in the shape the
        annotations or the extraction fit, ...)     -> never a violation: only the bounded
        runs speak; the evidence file says which obligations are undecided
"""
import json, os, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
from . import build

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Obl:
    """outcome of one group of obligations (one function under contract)"""
    def __init__(self, unit, backend, status, obligations=0, discharged=0, failed=(), reason="", time=0.0, cmd="", detail=""):
        self.unit, self.backend, self.status = unit, backend, status
        self.obligations, self.discharged, self.failed = obligations, discharged, list(failed)   # [(label, detail)]
        self.reason, self.time, self.cmd, self.detail = reason, time, cmd, detail


class Bounded:
    """outcome of one bounded run"""
    def __init__(self, name, rule, evaluations=0, distinct=0, samples=(), failures=(), note=""):
        self.name, self.rule, self.evaluations, self.distinct = name, rule, evaluations, distinct
        self.samples, self.failures, self.note = list(samples), list(failures), note   # failures: [{"what","key",...}]


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.wd = build.scratch()
        self.failed_obl = []

    def path(self, *a):
        p = os.path.join(self.wd, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("known: "):
                f = dict(x.split("=", 1) for x in l[7:].split(" | ")[0].split())
                f["text"] = l.split(" | ", 1)[1] if " | " in l else ""
                out.append(f)
    return out


def main(pid, prop, tier, seed):
    ctx = Ctx(pid, tier, seed)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev_path = os.path.join(VERIF, "evidence", pid + ".json")
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    obls, bnds = [], []
    jobs = prop.jobs(ctx)       # [(kind, name, callable)] kind: proof|bounded

    def run(j):
        kind, name, fn = j
        try:
            return fn()
        except build.BuildError:
            raise
        except Exception as e:   # an extraction that no longer fits is undecided, not an alarm
            if kind == "proof":
                return [Obl(name, "-", "undecided", reason="".join(traceback.format_exception_only(type(e), e)).strip()[-1500:],
                            detail=traceback.format_exc()[-3000:])]
            raise
    with ThreadPoolExecutor(8) as ex:
        for j, r in zip(jobs, ex.map(run, jobs)):
            (obls if j[0] == "proof" else bnds).extend(r if isinstance(r, list) else [r])
    failed = [o for o in obls if o.status == "failed"]
    ctx.failed_obl = failed
    if failed and not any(b.failures for b in bnds):
        bnds += prop.deep_search(ctx, failed)
    known = {f["key"]: f for f in known_findings() if f.get("property") == pid}
    fails = [f for b in bnds for f in b.failures]
    new = [f for f in fails if f.get("key") not in known]
    hit = {f["key"] for f in fails if f.get("key") in known}
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["text"]))
    status = 0
    replay = None
    line = None
    if new:
        status = 1
        replay = {"property": pid, "kind": "failing input", "failures": new[:10],
                  "failed_obligations": [(o.unit, o.failed) for o in failed]}
    elif failed:
        status = 1
        replay = {"property": pid, "kind": "failed obligation, no failing input found",
                  "obligations": [{"unit": o.unit, "backend": o.backend, "failed": o.failed, "verifier_output": o.detail, "cmd": o.cmd} for o in failed]}
    if replay:
        rp = os.path.join(VERIF, "evidence", "%s-replay.json" % pid)
        with open(rp, "w") as f:
            json.dump(replay, f, indent=1, default=str)
        line = "VIOLATION property=%s replay=%s" % (pid, rp) + ("" if new else " no-failing-input-found")
    n_ob = sum(o.obligations for o in obls)
    n_di = sum(o.discharged for o in obls)
    und = [o for o in obls if o.status == "undecided"]
    by = {}
    for o in obls:
        b = by.setdefault(o.backend, {"functions": 0, "proved": 0, "obligations": 0, "discharged": 0, "solver_s": 0.0})
        b["functions"] += 1
        b["proved"] += o.status == "proved"
        b["obligations"] += o.obligations
        b["discharged"] += o.discharged
        b["solver_s"] = round(b["solver_s"] + o.time, 1)
    cov = {
        "obligations": n_ob, "discharged": n_di,
        "checker_cmd": next((o.cmd for o in obls if o.cmd), ""),
        "trusted_base": prop.trusted(ctx),
        "functions_under_contract": sorted({o.unit for o in obls}),
        "by_backend": by,
        "undecided": [{"unit": o.unit, "reason": o.reason[:600]} for o in und],
        "failed_elsewhere": [{"unit": o.unit, "labels": [x[0] for x in getattr(o, "foreign", [])]} for o in obls if getattr(o, "foreign", None)],
        "bounded": [{"name": b.name, "label": "bounded, not counted as proved", "evaluations": b.evaluations,
                     "distinct_nontrivial": b.distinct, "rule": b.rule, "samples": b.samples[:3], "note": b.note} for b in bnds],
        "evaluations": sum(b.evaluations for b in bnds),
        "distinct_nontrivial": sum(b.distinct for b in bnds),
        "rule": "; ".join(b.rule for b in bnds),
        "samples": [x for b in bnds for x in b.samples[:2]],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": prop.level, "coverage": cov,
          "assumptions": prop.assumptions(ctx), "wall_s": round(time.time() - ctx.t0, 2), "violations": len(new) or len(failed)}
    if und and prop.level == "proof":
        ev["assumptions"] = ["UNDECIDED on this tree (not proved, bounded runs only): " + o.unit for o in und] + ev["assumptions"]
    tmp = ev_path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.rename(tmp, ev_path)
    print("%s: %d/%d obligations discharged over %d functions (%d undecided, %d failed), %d bounded evaluations, %.1f s" % (
        pid, n_di, n_ob, len(obls), len(und), len(failed), cov["evaluations"], ev["wall_s"]))
    for o in und:
        print("  undecided: %s: %s" % (o.unit, o.reason.splitlines()[0][:200] if o.reason else ""))
    for o in failed:
        print("  failed obligation: %s: %s" % (o.unit, "; ".join(x[0] for x in o.failed)[:300]))
    for f in new[:5]:
        print("  failing input: %s" % str(f.get("what"))[:600])
    if line:
        print(line)
    sys.stdout.flush()
    return status
