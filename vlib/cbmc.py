"""Drive goto-cc / goto-instrument --dfcc / cbmc on one contract."""
import json, os, resource, subprocess, time

MEM = 6 << 30


class Result:
    def __init__(self):
        self.status = "undecided"   # proved | failed | undecided
        self.obligations = 0
        self.discharged = 0
        self.failed = []            # [(property id, description)]
        self.reason = ""
        self.time = 0.0
        self.output = ""
        self.cmd = ""


def _sh(cmd, cwd, timeout):
    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    return subprocess.run(cmd, cwd=cwd, preexec_fn=lim, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)


GUARD = "reachability guard"


def verify(workdir, cfile, fn, labels, unwind=24, timeout=200, include=(), loop_contracts=False, extra_cbmc=(), replace=(),
           enforce=True):
    """enforce the contract of `fn` in `cfile` (entry point `harness`)."""
    r = Result()
    t0 = time.time()
    base = os.path.join(workdir, os.path.basename(cfile)[:-2])
    a, b = base + ".a.gb", base + ".b.gb"
    try:
        c1 = ["goto-cc", "-DVERIF_CBMC"] + ["-I" + i for i in include] + ["--function", "harness", cfile, "-o", a]
        p = _sh(c1, workdir, timeout)
        if p.returncode:
            r.reason = "goto-cc: " + p.stderr.decode(errors="replace")[-1500:]
            return r
        c2 = ["goto-instrument"]
        if fn is not None:
            c2 += ["--dfcc", "harness"]
            if enforce:
                c2 += ["--enforce-contract", fn]
        for x in replace:
            c2 += ["--replace-call-with-contract", x]
        if loop_contracts:
            c2 += ["--apply-loop-contracts"]
        c2 += [a, b]
        p = _sh(c2, workdir, timeout)
        if p.returncode:
            r.reason = "goto-instrument: " + (p.stdout + p.stderr).decode(errors="replace")[-1500:]
            return r
        c3 = ["cbmc", "--unwind", str(unwind), "--unwinding-assertions", "--bounds-check", "--pointer-check",
              "--json-ui", "--trace"] + list(extra_cbmc) + [b]
        r.cmd = "; ".join(" ".join(c) for c in (c1, c2, c3)).replace(workdir + "/", "")
        p = _sh(c3, workdir, timeout)
        try:
            js = json.loads(p.stdout.decode())
        except ValueError:
            r.reason = "cbmc: " + (p.stdout + p.stderr).decode(errors="replace")[-1500:]
            return r
        props = None
        for m in js:
            if "result" in m:
                props = m["result"]
        if props is None:
            r.reason = "cbmc gave no result: " + json.dumps(js[-3:])[:1500]
            return r
        guard_ok = False
        unwinding = []
        for q in props:
            d, st, pid = q.get("description", ""), q["status"], q["property"]
            if GUARD in d:
                guard_ok = guard_ok or st == "FAILURE"
                continue
            r.obligations += 1
            if st == "SUCCESS":
                r.discharged += 1
            elif ".unwind." in pid or "unwinding assertion" in d:
                unwinding.append(d)
            elif st == "FAILURE":
                lab = d
                if "undefined function" in d:
                    unwinding.append("call of a function without a definition: " + pid)
                    continue
                if fn and ".postcondition." in pid and pid.startswith(fn + "."):
                    k = int(pid.rsplit(".", 1)[1]) - 1
                    if k < len(labels):
                        lab = "postcondition: " + labels[k]
                r.failed.append((pid, lab, _trace_summary(q.get("trace", []))))
        if unwinding:
            r.reason = "incomplete: " + unwinding[0]
            r.failed = []
        elif r.failed:
            r.status = "failed"
        elif not guard_ok:
            r.reason = "vacuous: the end of the harness is unreachable"
        elif r.obligations == 0 or r.discharged != r.obligations:
            r.reason = "obligations undecided"
        else:
            r.status = "proved"
        return r
    except subprocess.TimeoutExpired as e:
        r.reason = "timeout"
        return r
    finally:
        r.time = time.time() - t0
        for f in (a, b):
            try:
                os.unlink(f)
            except OSError:
                pass


def _trace_summary(tr):
    out = []
    for s in tr:
        if s.get("stepType") == "assignment" and not s.get("hidden"):
            lhs = s.get("lhs", "")
            if lhs.startswith("__") or "dfcc" in lhs or "write_set" in lhs:
                continue
            v = s.get("value", {})
            d = v.get("data")
            if d is not None and len(str(d)) < 60:
                out.append("%s = %s" % (lhs, d))
    return out[-60:]
