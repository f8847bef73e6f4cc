"""Runs scenarios on the real code for concrete inputs (JSON lines)."""
import importlib
import json
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)


def run_one(module, scenario, params, inputs):
    from engine import env as E

    m = importlib.import_module("checks." + module)
    e = E.RealEnv(inputs)
    E.set_env(e)
    status, detail, trace = "ok", None, None
    try:
        m.SCENARIOS[scenario]["run"](e, **params)
    except E.AssumeFailed:
        status = "assume"
    except E.CheckFailed:
        pass
    except (SystemExit, Exception, KeyboardInterrupt) as x:
        status = "exception"
        detail = "raises %s: %s" % (type(x).__name__, x)
        trace = traceback.format_exc()[-2500:]
        if e.stale(x):
            status = "harness"
    finally:
        try:
            e.close()
        except Exception:
            pass
        E.set_env(None)
    if e.failed:
        status = "violation"
    return {
        "status": status,
        "detail": detail,
        "trace": trace,
        "failed": e.failed,
        "obs": e.obs,
        "missing": e.missing[:5],
    }


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # nothing the code prints disturbs the protocol
    from engine import hr

    hr.load(False)
    for line in sys.stdin:
        r = run_one(*json.loads(line))
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
