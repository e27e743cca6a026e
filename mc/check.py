"""Command line: python -m mc.check <property> [quick|thorough]"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")


def known_findings(prop):
    """Lines `known: property=<id> key=<key> <what fails>` of the known-findings file."""
    out = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            w = line.split()
            if len(w) > 3 and w[0] == "known:" and w[1] == "property=" + prop:
                out[w[2][len("key="):]] = " ".join(w[3:])
    return out


def job_key(job, code, detail):
    import hashlib

    d = json.dumps([job.get("inst"), (detail or {}).get("solve"), code], sort_keys=True, default=str)
    return hashlib.sha1(d.encode()).hexdigest()[:16]


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from . import engine, props

    P = props.PROPS[prop]
    codes = P["codes"]
    known = known_findings(prop)
    hit = set()

    def accept(code, job):
        return codes is None or code in codes or code in ("SHAPE", "LOST")

    deadline = t0 + (float(os.environ.get("MC_DEADLINE", "780")) if tier == "quick" else 1e9)
    X = engine.Explorer(chunk=P.get("chunk", 2), stop_at_first=not known, accept=accept, deadline=deadline)
    X.run(P["gen"](tier))
    X.crash = X.crash or X.errors
    if X.crash:
        sys.stderr.write("check error: %s\n" % X.crash[1])
        if X.crash[0] is not None:
            sys.stderr.write(json.dumps(X.crash[0], default=str)[:2000] + "\n")
        if not X.violations:
            return 2
    bad = []
    for job, code, msg, detail in X.violations:
        k = job_key(job, code, detail)
        if k in known:
            hit.add(k)
        else:
            bad.append((job, code, msg, detail))
    os.makedirs(EVID, exist_ok=True)
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    cov = {
        "states": X.states,
        "transitions": X.transitions,
        "traces_validated_against_impl": X.validated,
        "distinct_outcomes": len(X.outcomes),
        "jobs": X.jobs,
        "executions_of_solve": X.solves,
        "exhaustive": not X.truncated and not X.extra.get("capped") and not bad,
        "details": X.extra,
        "space": P["space"] if "space" in P else "",
        "samples": X.samples,
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": props.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if bad:
        job, code, msg, detail = bad[0]
        path = os.path.join(EVID, "replay_%s.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "code": code, "message": msg, "detail": detail, "job": job}, f, indent=1, default=str)
        print("%s %s: %s" % (prop, code, msg))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s held: %d executions of solve(), %d jobs, %.1f s" % (prop, X.solves, X.jobs, time.time() - t0))
    return 0


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        os.chdir(HERE)
        os.execve(sys.executable, [sys.executable, "-m", "mc.check"] + sys.argv[1:], env)
    sys.exit(main(sys.argv[1:]))
