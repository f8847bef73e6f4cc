"""check.py ID [quick|thorough]   decide one property
check.py replay FILE            run a reported counterexample on the real code
check.py path ID SCENARIO       (debugging) run one scenario"""
import json
import os
import shutil
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True


def load_known():
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def main(argv):
    if argv and argv[0] == "replay":
        from engine import explore

        d = json.load(open(argv[1]))
        r = explore.Real()
        out = r.run(d["module"], d["scenario"], d["params"], d["inputs"])
        r.stop()
        print(json.dumps(out, indent=1))
        return 1 if out["status"] in ("violation", "exception", "timeout") else 0
    pid = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = argv[2].split(",") if len(argv) > 2 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return run(pid, tier, seed, only)


def run(pid, tier, seed, only=None):
    import importlib

    t0 = time.time()
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix="hyperreal-check.", dir=base)
    os.environ["HRSYM_SCRATCH"] = scratch
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = None
    try:
        return _run(pid, tier, seed, only, t0, importlib)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run(pid, tier, seed, only, t0, importlib):
    from engine import explore

    mod = importlib.import_module("checks." + pid.lower())
    jobs = []
    for name, sc in mod.SCENARIOS.items():
        if only and name not in only:
            continue
        for i, params in enumerate(sc.get(tier, sc["quick"])):
            jobs.append(
                {
                    "id": "%s/%d" % (name, i),
                    "module": pid.lower(),
                    "scenario": name,
                    "params": params,
                    "limits": sc.get("limits", {}),
                    "sample": sc.get("sample", (2, 60)),
                    "path_s": sc.get("path_s", 60),
                }
            )
    deadline = 420 if tier == "quick" else 7200
    deadline = float(os.environ.get("HRSYM_DEADLINE", deadline))
    n = int(os.environ.get("HRSYM_WORKERS", min(8, os.cpu_count() or 1)))
    s = explore.explore(jobs, workers=n, deadline=deadline)
    st = s["stats"]
    known = [k for k in load_known() if k.get("property") == pid]
    new = []
    for c in s["cands"]:
        if any(matches(k, c) for k in known):
            print("KNOWN-FINDING: property=%s %s" % (pid, c["labels"]))
        else:
            new.append(c)
    # vacuity: the situations the property is about must have been reached
    vacuous = []
    if not s["cut"] and not new and not s["errors"]:
        for name, sc in mod.SCENARIOS.items():
            if only and name not in only:
                continue
            got = {}
            for jid, d in s["reached"].items():
                if jid.split("/")[0] == name:
                    for k, v in d.items():
                        got[k] = got.get(k, 0) + v
            for r in sc.get("reach", []):
                if not got.get(r):
                    vacuous.append("%s: %s" % (name, r))
    wall = time.time() - t0
    exhaustive = not s["cut"] and not s["errors"] and not st.get("inconclusive") and not new
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": st.get("paths", 0) - st.get("infeasible", 0),
            "transitions": st.get("decisions", 0),
            "traces_validated_against_impl": st.get("validated", 0),
            "samples": s["samples"][:3] or [{"scenario": j["scenario"], "params": j["params"]} for j in jobs[:1]],
            "exhaustive": bool(exhaustive),
            "meaning": "states: feasible symbolic paths, each standing for every input satisfying its path condition; "
            "transitions: branch decisions settled by the solver; traces validated: paths whose solver model was run "
            "on the real code (SQLite, CRoaring) with identical observations",
            "functions_encoded": s["encoded"],
            "bounds": mod.BOUNDS,
            "scenarios": {k: v for k, v in s["per_job"].items()},
            "queries": st.get("queries", 0),
            "solver_s": round(st.get("solver_s", 0), 2),
            "forks": st.get("forks", 0),
            "assertions": st.get("checks", 0),
            "infeasible_paths": st.get("infeasible", 0),
            "inconclusive_paths": st.get("inconclusive", 0),
            "replays_on_real_code": st.get("replays", 0),
            "replay_mismatches": st.get("mismatches", 0),
            "time_limit_hit": s["cut"],
            "situations_reached": s["reached"],
            "notes": ["%s x%d: %s" % (k[0], v, k[1][:400]) for k, v in list(s["notes"].items())[:10]],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        "%s %s: %d paths (%d infeasible), %d decisions, %d queries (%.1f s solver), %d replayed, %d mismatches, "
        "%d inconclusive, %.1f s%s"
        % (
            pid,
            tier,
            st.get("paths", 0),
            st.get("infeasible", 0),
            st.get("decisions", 0),
            st.get("queries", 0),
            st.get("solver_s", 0),
            st.get("replays", 0),
            st.get("mismatches", 0),
            st.get("inconclusive", 0),
            wall,
            " TIME LIMIT" if s["cut"] else "",
        )
    )
    if os.environ.get("HRSYM_VERBOSE"):
        for k, v in sorted(s["per_job"].items(), key=lambda kv: -kv[1]["t"])[:40]:
            print("   ", k, v["paths"], "%.1f" % v["t"], s["reached"].get(k))
    for k, v in list(s["notes"].items())[: 12 if os.environ.get("HRSYM_VERBOSE") else 4]:
        print("  NOTE %s x%d: %s" % (k[0], v, k[1][: 3500 if os.environ.get("HRSYM_VERBOSE") else 600]))
    for e in s["errors"][:2]:
        print("  ERROR", e[-3000:])
    if new:
        c = new[0]
        path = os.path.join(ROOT, "evidence", "replay-%s.json" % pid)
        with open(path, "w") as f:
            json.dump(c, f, indent=1)
        print("  scenario %s %s" % (c["scenario"], c["params"]))
        print("  fails: %s" % "; ".join(str(x) for x in c["labels"][:5]))
        if c.get("trace"):
            print("   ", c["trace"].strip().replace("\n", "\n    ")[-1500:])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if s["errors"]:
        return 2
    if vacuous:
        # nothing was shown: the scenario no longer reaches what it is about
        print("  VACUOUS: " + "; ".join(vacuous[:6]))
        return 0 if not os.environ.get("HRSYM_STRICT") else 2
    if st.get("paths", 0) - st.get("infeasible", 0) - st.get("unsupported", 0) <= 0:
        print("  nothing was explored")
        return 2
    return 0


def matches(k, c):
    return (
        k.get("scenario") == c["scenario"]
        and all(c["params"].get(a) == b for a, b in k.get("params", {}).items())
        and all(c["inputs"].get(a) == b for a, b in k.get("inputs", {}).items())
        and any(k.get("label", "") in str(l) for l in c["labels"])
    )


COMMON_ASSUMPTIONS = [
    "Trusted: z3, the CPython interpreter, and the substitutes of sqlite3 (engine/symsql.py), pyroaring "
    "(engine/bitmap.py) and array. The substitutes are compared with the real libraries by tools/sqldiff.py and on "
    "every run by replaying solver models on the real code.",
    "Floating point arithmetic is treated as exact rational arithmetic.",
    "Feature values and texts are opaque unless a scenario says otherwise: only their equality and order matter.",
    "Background tasks are atomic; they run in any order and at any moment between submission and use of their result "
    "that the scenario's bounds allow.",
]

if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv)
    sys.exit(main(sys.argv[1:]))
