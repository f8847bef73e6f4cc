"""Exploration of the paths of a scenario, over worker processes."""
import importlib
import json
import os
import select
import signal
import subprocess
import sys
import time
import traceback

REAL_PY = "/opt/venv/bin/python"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# -------------------------------------------------------------------- replay
class Real:
    """the interpreter of the project, running scenarios on concrete inputs"""

    def __init__(self):
        self.p = None

    def start(self):
        e = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        self.p = subprocess.Popen(
            [REAL_PY, "-W", "ignore", "-m", "engine.realworker"],
            cwd=ROOT,
            env=e,
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            text=True,
        )

    def run(self, module, scenario, params, inputs, timeout=40):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.p.stdin.write(json.dumps([module, scenario, params, inputs]) + "\n")
        self.p.stdin.flush()
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.p.kill()
            self.p.wait()
            self.p = None
            return {"status": "timeout"}
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            return {"status": "died"}
        return json.loads(line)

    def stop(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
            self.p = None


# -------------------------------------------------------------------- worker
class Alarm(BaseException):
    pass


class Worker:
    def __init__(self, opts):
        self.opts = opts
        from . import hr

        sys.path.insert(0, ROOT)
        hr.load(True)
        from . import core, symenv, symsql, env

        self.core, self.symenv, self.symsql, self.env = core, symenv, symsql, env
        self.hr = hr
        self.real = Real()
        self.path_s = opts.get("path_s", 60)
        self.sampled = {}

    def scenario(self, job):
        m = importlib.import_module("checks." + job["module"])
        return m.SCENARIOS[job["scenario"]]["run"]

    def run_task(self, job, prefix, budget_s, budget_paths):
        """explore depth first below a prefix"""
        core = self.core
        stats = core.new_stats()
        stats.update(validated=0, mismatches=0, replays=0, inconclusive=0)
        stack = [prefix]
        cands, notes, samples = [], [], []
        reached = {}
        t0 = time.time()
        n = 0
        while stack:
            if n and (time.time() - t0 > budget_s or n >= budget_paths):
                break
            pre = stack.pop()
            alts = self.path(job, pre, stats, cands, notes, samples, reached)
            stack.extend(alts)
            n += 1
            if cands:
                break
        return {
            "left": stack,
            "stats": stats,
            "cands": cands,
            "notes": notes,
            "samples": samples,
            "reached": reached,
            "encoded": sorted(self.hr.encoded),
        }

    def path(self, job, prefix, stats, cands, notes, samples, reached):
        core = self.core
        ctx = core.Ctx(prefix, stats, job.get("limits", {}))
        core.set_ctx(ctx)
        self.symsql.reset_world()
        e = self.symenv.SymEnv(ctx)
        self.env.set_env(e)
        err = None
        run = self.scenario(job)

        def on_alarm(*a):
            raise Alarm()

        signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, job.get("path_s", self.path_s))
        try:
            try:
                run(e, **job["params"])
            except self.env.CheckFailed:
                pass
            except BaseException as x:
                err = x
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Alarm as x:
            err = x
        sig = ctx.aborting if ctx.aborting is not None else err
        try:
            return self.finish(job, ctx, e, sig, err, stats, cands, notes, samples, reached)
        finally:
            self.env.set_env(e)
            try:
                e.close()
            except BaseException:
                pass
            core.set_ctx(None)

    def finish(self, job, ctx, e, sig, err, stats, cands, notes, samples, reached):
        core = self.core
        stats["paths"] += 1
        if isinstance(sig, KeyboardInterrupt) and not getattr(sig, "injected", False):
            raise sig
        if isinstance(sig, core.PathInfeasible):
            stats["infeasible"] += 1
            return ctx.alternatives
        ctx.aborting = None
        try:
            bad = [(l, t) for l, t in e.checks if t is not True]
            stats["checks"] += len(e.checks)
            if bad:
                neg = core.tor(*[core.tnot(t) for _, t in bad])
                if neg is True:
                    sat, m = True, ctx.ensure_model()
                else:
                    sat, m = ctx._check(core.zb(neg))
                if sat:
                    labels = [l for l, t in bad if not self.holds(m, t)]
                    self.candidate(job, e, m, labels, err, stats, cands, notes)
                    return ctx.alternatives
            if isinstance(sig, (core.EngineSignal, Alarm)):
                stats["unsupported"] += 1
                what = "%s: %s" % (type(sig).__name__, sig)
                if os.environ.get("HRSYM_DEBUG"):
                    what += "".join(traceback.format_exception(sig))[-1500:]
                self.inconclusive(job, e, ctx, what, stats, cands, notes)
                return ctx.alternatives
            if err is not None:
                m = ctx.ensure_model()
                tb = traceback.format_exception(err)
                self.candidate(job, e, m, ["raises %s: %s" % (type(err).__name__, err)], err, stats, cands, notes, "".join(tb)[-1500:])
                return ctx.alternatives
        except core.PathInfeasible:
            stats["infeasible"] += 1
            return ctx.alternatives
        except core.SolverUnknown as x:
            stats["unsupported"] += 1
            notes.append(("inconclusive", "solver: %s" % x))
            stats["inconclusive"] += 1
            return ctx.alternatives
        key = job["id"]
        for r in e.reached:
            reached[r] = reached.get(r, 0) + 1
        k = self.sampled.get(key, 0)
        self.sampled[key] = k + 1
        first, every = job.get("sample", (3, 40))
        if k < first or k % every == 0:
            try:
                m = ctx.ensure_model()
            except core.EngineSignal:
                return ctx.alternatives
            ins = e.model_inputs(m)
            obs = e.model_obs(m)
            r = self.real.run(job["module"], job["scenario"], job["params"], ins)
            stats["replays"] += 1
            if r["status"] in ("violation", "exception", "timeout"):
                cands.append(self.report(job, ins, r, ["found while replaying a sampled path"]))
            elif r["status"] != "ok" or json.loads(json.dumps(obs)) != json.loads(json.dumps([tuple(x) for x in r["obs"]])):
                stats["mismatches"] += 1
                diff = [
                    (a, b)
                    for a, b in zip(json.loads(json.dumps(obs)), r.get("obs", []))
                    if a != b
                ][:3]
                notes.append(("mismatch", json.dumps([job["scenario"], job["params"], ins, r["status"], r.get("detail"), diff])[:3000]))
            else:
                stats["validated"] += 1
                if len(samples) < 1:
                    samples.append({"scenario": job["scenario"], "params": job["params"], "inputs": ins})
        return ctx.alternatives

    def holds(self, m, t):
        import z3

        return t is True or (t is not False and z3.is_true(m.eval(t, model_completion=True)))

    def report(self, job, ins, r, labels):
        return {
            "module": job["module"],
            "scenario": job["scenario"],
            "params": job["params"],
            "inputs": ins,
            "labels": r.get("failed") or [r.get("detail") or r["status"]],
            "symbolic": labels,
            "status": r["status"],
            "detail": r.get("detail"),
            "trace": r.get("trace"),
        }

    def candidate(self, job, e, m, labels, err, stats, cands, notes, tb=None):
        ins = e.model_inputs(m)
        r = self.real.run(job["module"], job["scenario"], job["params"], ins)
        stats["replays"] += 1
        if r["status"] in ("violation", "exception", "timeout"):
            cands.append(self.report(job, ins, r, labels))
            return
        stats["mismatches"] += 1
        notes.append(
            ("unreproduced", json.dumps([job["scenario"], job["params"], ins, labels, r, tb])[:4000])
        )

    def inconclusive(self, job, e, ctx, what, stats, cands, notes):
        stats["inconclusive"] += 1
        notes.append(("inconclusive", what))
        try:
            m = ctx.ensure_model()
        except self.core.EngineSignal:
            return
        ins = e.model_inputs(m)
        r = self.real.run(job["module"], job["scenario"], job["params"], ins)
        stats["replays"] += 1
        if r["status"] in ("violation", "exception", "timeout"):
            cands.append(self.report(job, ins, r, [what]))


def worker_main(conn, opts):
    os.environ["PYTHONHASHSEED"] = "0"
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        w = Worker(opts)
    except BaseException:
        conn.send(("dead", traceback.format_exc()))
        return
    conn.send(("ready", None))
    while True:
        msg = conn.recv()
        if msg is None:
            w.real.stop()
            break
        job, prefix, bs, bp = msg
        try:
            r = w.run_task(job, prefix, bs, bp)
            conn.send(("done", r))
        except BaseException:
            conn.send(("error", traceback.format_exc()))


# -------------------------------------------------------------------- master
def explore(jobs, workers=8, deadline=None, verbose=False, stop_on_violation=True):
    """jobs: dicts with id, module, scenario, params.  Returns a summary."""
    import multiprocessing as mp

    t0 = time.time()
    ctx = mp.get_context("fork")
    ws = []
    for _ in range(workers):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker_main, args=(b, {}), daemon=False)
        p.start()
        b.close()
        ws.append([p, a, None])
    queue = [(j, []) for j in jobs]
    queue.reverse()
    total = {}
    per_job = {j["id"]: {"paths": 0, "t": 0.0} for j in jobs}
    cands, notes, samples, encoded, reached, errors = [], {}, [], set(), {}, []
    live = {a: w for w in ws for a in [w[1]]}
    idle = []
    cut = False
    by_id = {j["id"]: j for j in jobs}
    try:
        while True:
            if cands and stop_on_violation:
                break
            late = deadline is not None and time.time() - t0 > deadline
            if late and queue:
                cut = True
                queue.clear()
            while queue and idle:
                w = idle.pop()
                # the scenario that has had the least time goes first
                k = min(range(len(queue)), key=lambda i: (per_job[queue[i][0]["id"]]["t"], -i)) if len(jobs) > 1 else -1
                j, pre = queue.pop(k)
                busy = workers - len(idle)
                # short tasks while there is little to share
                w[1].send((j, pre, 4.0 if len(queue) > 2 * workers else 0.7, 10**9))
                w[2] = (j["id"], time.time())
            if not queue and len(idle) == len(live):
                if idle or not live:
                    break
            rd, _, _ = select.select(list(live), [], [], 1.0)
            for c in rd:
                w = live[c]
                try:
                    kind, r = c.recv()
                except EOFError:
                    errors.append("worker died")
                    cut = True
                    del live[c]
                    continue
                if kind == "ready":
                    idle.append(w)
                elif kind == "dead":
                    errors.append(r)
                    del live[c]
                elif kind == "error":
                    errors.append(r)
                    idle.append(w)
                else:
                    jid, ts = w[2]
                    idle.append(w)
                    pj = per_job[jid]
                    pj["paths"] += r["stats"]["paths"]
                    pj["t"] += time.time() - ts
                    for k, v in r["stats"].items():
                        total[k] = total.get(k, 0) + v
                    cands += r["cands"]
                    for kind_, txt in r["notes"]:
                        key = (kind_, txt)
                        notes[key] = notes.get(key, 0) + 1
                    samples += r["samples"]
                    encoded |= set(r["encoded"])
                    for k, v in r["reached"].items():
                        reached.setdefault(jid, {})
                        reached[jid][k] = reached[jid].get(k, 0) + v
                    for pre in r["left"]:
                        queue.append((by_id[jid], pre))
    finally:
        for p, c, _ in ws:
            try:
                c.send(None)
            except Exception:
                pass
        for p, c, _ in ws:
            p.join(0.5 if cands or cut else 5)
            if p.is_alive():
                p.kill()
                p.join()
    return {
        "stats": total,
        "cands": cands,
        "notes": notes,
        "samples": samples,
        "encoded": sorted(encoded),
        "reached": reached,
        "errors": errors,
        "cut": cut,
        "per_job": per_job,
        "wall": time.time() - t0,
    }
