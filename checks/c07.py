"""C07: a failed or interrupted model edit leaves the model unchanged."""
from concurrent.futures.process import BrokenProcessPool

from engine import hr
from . import common as K
from .models import *

BOUNDS = {
    "quick": "one failure (a database error, an interrupt, a background job that raises or whose worker dies) at any of the statements or background jobs of one operation, or of "
    "an edit of two operations, on 3 features in 2 clusters over 2 documents with arbitrary document sets, or on 15 features in 13 clusters",
    "thorough": "as quick, over every assignment of 3 features and argument lists of up to 2 ids",
}
ASSUMPTIONS = ["One failure per operation; a failing statement has no effect; interrupts arrive between statements."]


# what fails: a database call, the user interrupting, or a background job
# that raises, or whose worker dies
DATABASE, INTERRUPT, RAISES, DIES = range(4)


class Failing:
    """raises at one database call, whichever connection makes it, or at one
    background job"""

    def __init__(self, env, what):
        self.env, self.what = env, what
        self.fired = False

    def __call__(self, kind, sql, conn):
        if self.what in (DATABASE, INTERRUPT):
            self.maybe()

    def job(self, fn):
        if self.what in (RAISES, DIES):
            self.maybe()

    def maybe(self):
        if self.fired:
            return
        if self.env.pick("fail here", 2):
            self.fired = True
            if self.what == INTERRUPT:
                e = KeyboardInterrupt("injected")
                e.injected = True
            elif self.what == DATABASE:
                e = hr.sqlite3.OperationalError("injected failure")
            elif self.what == RAISES:
                e = ValueError("injected failure")
            else:
                e = BrokenProcessPool("injected failure")
            self.error = e
            raise e

    def __enter__(self):
        self.env.faults(self)
        self.env.job_hook = self.job
        return self

    def __exit__(self, *a):
        self.env.faults(None)
        self.env.job_hook = None


def snapshot(db):
    fc, cl = K.read_model(db)
    return [fc, cl, list(db.execute("select cluster_id from changed_cluster"))]


def attempt(env, idx, call, what):
    err = None
    with Failing(env, what) as hook:
        try:
            call()
        except (Exception, KeyboardInterrupt) as e:
            err = e
    if not hook.fired:
        env.check(err is None, "without a failure the operation succeeds")
        env.reach("beyond the last statement")
        return False
    env.check(err is not None, "the failure reaches the caller")
    if what == INTERRUPT:
        env.check(isinstance(err, KeyboardInterrupt), "an interrupt reaches the caller as an interrupt")
    env.reach("failed")
    return True


def after(env, idx, before, bits, fids, assign, pins, cpins):
    db = K.reader(env, idx)
    env.check(not idx.db.in_transaction, "no transaction is left open")
    env.check(env.same(snapshot(db), before), "the stored model is what it was before the operation")
    env.check(env.same(snapshot(idx.db), before), "the index object sees the model as it was")
    K.check_reads(env, idx, db)
    # it remains usable
    f = sorted(assign)[0]
    idx.delete_features([f])
    fc, cl = K.check_summaries(env, db, bits, "afterwards: ")
    env.check(sorted(fc) == sorted(x for x in assign if x != f), "a following operation takes effect durably")
    env.check(not idx.db.in_transaction, "afterwards: no transaction is left open")


def run_fault(env, op, F, C, D, nargs, fixed=None):
    idx, fids, bits, assign, pins, cpins = state(env, F, C, D, fixed=fixed, full=True)
    what = env.pick("what fails", 4)
    before = snapshot(idx.db)
    if op == "initialise":
        env.draws = "first"
        call = lambda: idx.initialise_clusters(2)
    else:
        call, *_ = operation(env, op, idx, fids, bits, assign, pins, cpins, C, nargs)
    if attempt(env, idx, call, what):
        after(env, idx, before, bits, fids, assign, pins, cpins)


def run_large(env, op, sizes):
    """an edit of many clusters or features"""
    idx, fids, bits, assign, pins, cpins = large_state(env, sizes, (0,))
    what = env.pick("what fails", 4)
    before = snapshot(idx.db)
    if op == "initialise":
        env.draws = "first"
        call = lambda: idx.initialise_clusters(12)
    elif op == "merge_clusters":
        cs = list(env.cids)[::-1][1:]
        call = lambda: idx.merge_clusters(cs)
    else:
        most = lambda env, name, choices, n: list(choices)[1:-1] + list(choices)[:1]
        call, *_ = operation(env, op, idx, fids, bits, assign, pins, cpins, len(sizes), None, pick_list=most)
    if attempt(env, idx, call, what):
        after(env, idx, before, bits, fids, assign, pins, cpins)


def run_nested(env, ops, F, C, D, nargs, fixed, caught):
    """a failure inside an edit made of two operations; or, with caught, the
    second operation fails and the larger edit carries on"""
    idx, fids, bits, assign, pins, cpins = state(env, F, C, D, fixed=fixed, full=True)
    what = DATABASE if caught else env.pick("what fails", 4)
    before = snapshot(idx.db)
    c1, a1, p1, k1 = operation(env, ops[0], idx, fids, bits, assign, pins, cpins, C, nargs)
    c2, *_ = operation(env, ops[1], idx, fids, bits, a1, p1, k1, C, nargs)
    if not caught:

        def both(self):
            c1()
            c2()

        call = lambda: hr.index.atomic(writes=True)(both)(idx)
        if attempt(env, idx, call, what):
            after(env, idx, before, bits, fids, assign, pins, cpins)
        return
    failed = []

    def both(self):
        r = c1()
        with Failing(env, DATABASE) as hook:
            try:
                c2()
            except hr.sqlite3.OperationalError as e:
                failed.append(e)
        env.assume(hook.fired)
        return r

    r = hr.index.atomic(writes=True)(both)(idx)
    env.check(len(failed) == 1, "the failure reaches the caller of the inner operation")
    fc, cl = K.check_summaries(env, K.reader(env, idx), bits)
    check_result(env, fc, cl, r, a1, p1, k1)
    env.check(not idx.db.in_transaction, "no transaction is left open")
    env.reach("failed")


SCENARIOS = {
    "fault": {
        "run": run_fault,
        "quick": [dict(op=o, F=3, C=2, D=2, nargs=1, fixed=x) for o in OPS for x in ([1, 2, 2],)]
        + [dict(op="initialise", F=3, C=2, D=2, nargs=1, fixed=[1, 2, 2])],
        "thorough": [dict(op=o, F=3, C=2, D=2, nargs=2) for o in OPS + ("initialise",)],
        "reach": ["failed", "beyond the last statement"],
    },
    "large": {
        "run": run_large,
        "quick": [dict(op=o, sizes=(3,) + (1,) * 12) for o in OPS + ("initialise",)],
        "thorough": [dict(op=o, sizes=(20, 3) + (1,) * 20) for o in OPS + ("initialise",)],
        "reach": ["failed", "beyond the last statement"],
    },
    "nested": {
        "run": run_nested,
        "quick": [
            dict(ops=["merge_clusters", "delete_features"], F=3, C=2, D=1, nargs=1, fixed=[1, 2, 2], caught=False),
            dict(ops=["create_cluster", "pin_clusters"], F=3, C=2, D=1, nargs=1, fixed=[1, 1, 2], caught=False),
            dict(ops=["merge_clusters", "create_cluster"], F=3, C=2, D=1, nargs=1, fixed=[1, 2, 2], caught=True),
        ],
        "thorough": [
            dict(ops=[a, b], F=3, C=2, D=1, nargs=1, fixed=x, caught=c)
            for a in OPS
            for b in OPS
            for x in ([1, 2, 2], [1, 1, 2])
            for c in (False, True)
        ],
        "reach": ["failed"],
    },
}
