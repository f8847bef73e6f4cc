"""C05: cluster summaries always agree with cluster membership."""
from engine import hr
from . import common as K
from . import refine
from .models import *

BOUNDS = {
    "quick": "one operation from every model of 3 features in up to 2 clusters over 3 documents with arbitrary document sets "
    "(so histories of any length within that size), argument lists of up to 2 ids; two operations in a row nested in one; operations on 12-28 features in 3-12 clusters, reading clusters of up to 40 features; refinement of 3 features with arbitrary scores",
    "thorough": "4 features, 3 clusters, 3 documents, argument lists of up to 3 ids",
}


def run_op(env, op, F, C, D, nargs):
    idx, fids, bits, assign, pins, cpins = state(env, F, C, D)
    env.schedule = "last"
    db = K.reader(env, idx)
    call, a2, p2, c2 = operation(env, op, idx, fids, bits, assign, pins, cpins, C, nargs)
    K.look(env, idx, clusters=sorted(set(assign.values())))
    call()
    fc, cl = K.check_summaries(env, db, bits)
    K.check_reads(env, idx, db)
    if cl and a2 != assign:
        env.reach("changed")
    if len(cl) < len(set(assign.values())):
        env.reach("a cluster disappeared")
    K.observe_model(env, idx.db)


def run_large(env, op, sizes, free):
    """many ids at once, in larger models"""
    idx, fids, bits, assign, pins, cpins = large_state(env, sizes, free)
    env.schedule = "last"
    db = K.reader(env, idx)
    call, a2, *_ = operation(env, op, idx, fids, bits, assign, pins, cpins, len(sizes), None, pick_list=long_list)
    K.look(env, idx, fids, sorted(set(assign.values())))
    call()
    fc, cl = K.check_summaries(env, db, bits)
    K.check_reads(env, idx, db, fids=fids)
    env.check(len(cl) == len(set(a2.values())), "exactly the expected clusters exist")
    if a2 != assign:
        env.reach("changed")
    K.observe_model(env, idx.db)


def run_nested(env, ops, F, C, D, nargs):
    """two edits inside one larger edit"""
    idx, fids, bits, assign, pins, cpins = state(env, F, C, D, full=True)
    db = K.reader(env, idx)
    a, p, c = assign, pins, cpins
    calls = []
    for op in ops:
        call, a, p, c = operation(env, op, idx, fids, bits, a, p, c, C, nargs)
        calls.append(call)

    def both(self):
        for f in calls:
            f()

    K.look(env, idx, clusters=sorted(set(assign.values())))
    hr.index.atomic(writes=True)(both)(idx)
    K.check_summaries(env, db, bits)
    K.check_reads(env, idx, db)
    env.reach("changed")
    K.observe_model(env, idx.db)


def run_init(env, F, n, D, before):
    idx, fids, bits, assign, pins, cpins = state(env, F, 2, D, fixed=before)
    K.look(env, idx, fids, sorted(set(assign.values())))
    idx.initialise_clusters(n, min_docs=env.int("min_docs", 0, 1))
    db = K.reader(env, idx)
    fc, cl = K.check_summaries(env, db, bits)
    K.check_reads(env, idx, db, fids=fids)
    if len(cl) > 1:
        env.reach("changed")
    K.observe_model(env, idx.db)


def run_reads(env, F, C, D):
    """what the reading methods report is what the tables hold"""
    idx, fids, bits, assign, pins, cpins = state(env, F, C, D)
    reads(env, idx, bits, assign, D)


def run_reads_large(env, sizes, free):
    idx, fids, bits, assign, pins, cpins = large_state(env, sizes, free)
    reads(env, idx, bits, assign, 20)
    K.check_reads(env, idx, K.reader(env, idx), fids=fids, queries=True)


def reads(env, idx, bits, assign, D):
    for c in idx.cluster_ids:
        fs = [f for f in assign if assign[f] == c]
        env.check(env.same(idx.cluster_docs(c), K.union(env, [bits[f] for f in fs])), "cluster_docs")
        matching, bs = idx.cluster_query(c)
        env.check(env.same(matching, K.union(env, [bits[f] for f in fs])), "cluster_query matches the cluster's documents")
        for d in range(D):
            n = 0
            for i, s in enumerate(bs):
                n = n + env.ite(env.bit(s, d), 2**i, 0)
            env.check(env.eq(n, env.count([env.bit(bits[f], d) for f in fs])), "cluster_query counts features per document")
        env.reach("read")
    env.check(idx.cluster_ids == sorted(set(assign.values())), "cluster_ids")


SCENARIOS = {
    "edit": {
        "run": run_op,
        "quick": [dict(op=o, F=3, C=2, D=3, nargs=2) for o in OPS if not o.startswith("pin_")]
        + [dict(op=o, F=2, C=2, D=2, nargs=1) for o in OPS if o.startswith("pin_")],
        "thorough": [dict(op=o, F=4, C=3, D=3, nargs=3 if o != "merge_clusters" else 2) for o in OPS],
        "reach": ["changed", "a cluster disappeared"],
    },
    "large": {
        "run": run_large,
        "quick": [dict(op=o, sizes=s, free=(0, 3)) for o in OPS if not o.startswith("pin_") for s in ((1,) * 12, (9, 1, 7), (24, 1, 3))],
        "thorough": [dict(op=o, sizes=s, free=(0, 3, 4)) for o in OPS for s in ((1,) * 24, (15, 1, 17), (2, 1) * 6)],
        "reach": ["changed"],
    },
    "nested": {
        "run": run_nested,
        "quick": [dict(ops=o, F=2, C=2, D=2, nargs=1) for o in (["merge_clusters", "delete_features"], ["create_cluster", "delete_clusters"])],
        "thorough": [dict(ops=[a, b], F=3, C=2, D=2, nargs=1) for a in OPS for b in OPS],
        "reach": ["changed"],
    },
    "initialise": {
        "run": run_init,
        "quick": [dict(F=3, n=2, D=2, before=[1, 2, 2]), dict(F=3, n=3, D=1, before=[0, 0, 1])],
        "thorough": [dict(F=4, n=2, D=3, before=[1, 2, 2, 0]), dict(F=4, n=3, D=2, before=[0, 0, 1, 2])],
        "reach": ["changed"],
    },
    "refine": {
        "run": lambda env, **kw: refine.run(env, "C05", **kw),
        "quick": [
            dict(assign=[1, 1, 2], C=2, D=2, draws=(0, 1), pins=None, cpins=None),
            dict(assign=[1, 1, 2], C=2, target=3, draws=(0, 1), pins=None, cpins=None, D=1),
            dict(assign=[1, 2, 3], C=3, target=2, draws=(0, 0), pins=[0, 1], cpins=None, D=2),
        ],
        "thorough": [c for c in refine.cases("thorough") if c["assign"] in ([1, 1, 2], [1, 2, 2]) and c.get("pins") is None],
        "reach": ["refined"],
    },
    "reads large": {
        "run": run_reads_large,
        "quick": [dict(sizes=(40, 1, 3), free=(0,)), dict(sizes=(1,) * 30, free=(0, 3))],
        "thorough": [dict(sizes=(140, 1, 3), free=(0, 3)), dict(sizes=(1,) * 130, free=(0, 3)), dict(sizes=(3, 2) * 20, free=(0, 3))],
        "reach": ["read"],
    },
    "reads": {
        "run": run_reads,
        "quick": [dict(F=3, C=2, D=2)],
        "thorough": [dict(F=4, C=2, D=2)],
        "reach": ["read"],
    },
}
