"""C06: model edits do exactly what was asked and nothing else."""
from engine import hr
from . import common as K
from .models import *

BOUNDS = {
    "quick": "3 features over 1 document, up to 2 clusters in every assignment, 3 clusters of a feature each (ids 0 and 2, or consecutive), symbolic pins, argument lists of up to "
    "2 ids including repeated and unknown ones; 12-28 features in 3-12 clusters; initialisation of 4 features with 1-3 clusters, every shuffle; two edits nested in one",
    "thorough": "4 features, 3 clusters, argument lists of up to 3 ids",
}


def run_op(env, op, F, C, D, nargs, cids=None, fixed=None):
    idx, fids, bits, assign, pins, cpins = state(env, F, C, D, fixed=fixed, cids=cids)
    call, a2, p2, c2 = operation(env, op, idx, fids, bits, assign, pins, cpins, C, nargs)
    ret = call()
    fc, cl = K.read_model(K.reader(env, idx))
    check_result(env, fc, cl, ret, a2, p2, c2)
    env.check(not idx.db.in_transaction, "no transaction is left open")
    env.reach("edited") if a2 != assign or op.startswith("pin") else None
    K.observe_model(env, idx.db)


def run_nested(env, ops, F, C, D, nargs):
    """several edits inside one larger edit"""
    idx, fids, bits, assign, pins, cpins = state(env, F, C, D, full=True)
    old = set(cpins)
    a, p, c = assign, pins, cpins
    calls = []
    for i, op in enumerate(ops):
        call, a, p, c = operation(env, op, idx, fids, bits, a, p, c, C, nargs)
        a = {f: "new %d" % i if x == "new" else x for f, x in a.items()}
        calls.append(call)
    rets = []

    def all_of_them(self):
        for call in calls:
            rets.append(call())

    hr.index.atomic(writes=True)(all_of_them)(idx)
    made = [r for op, r in zip(ops, rets) if op == "create_cluster"]
    env.check(all(r not in old for r in made), "new clusters' ids were not in use")
    # a cluster that got no features does not exist, its id can be used again
    alive = [rets[i] for i in range(len(ops)) if "new %d" % i in a.values()]
    env.check(len(set(alive)) == len(alive), "new clusters get ids of their own")
    a = {f: rets[int(x[4:])] if type(x) is str else x for f, x in a.items()}
    if len(alive) > 1:
        env.reach("several created")
    fc, cl = K.read_model(K.reader(env, idx))
    check_result(env, fc, cl, None, a, p, c)
    env.check(not idx.db.in_transaction, "no transaction is left open")


def run_large(env, op, sizes, pinned):
    """many ids at once, in larger models"""
    idx, fids, bits, assign, pins, cpins = large_state(env, sizes, (), pinned)
    call, a2, p2, c2 = operation(env, op, idx, fids, bits, assign, pins, cpins, len(sizes), None, pick_list=long_list)
    ret = call()
    fc, cl = K.read_model(K.reader(env, idx))
    check_result(env, fc, cl, ret, a2, p2, c2)
    env.check(not idx.db.in_transaction, "no transaction is left open")
    env.reach("edited")
    K.observe_model(env, idx.db)


def run_unknown(env, F, C, D, fixed, cids=None):
    """features the index does not have can not be put in a cluster"""
    idx, fids, bits, assign, pins, cpins = state(env, F, C, D, fixed=fixed, cids=cids)
    fs = pick_list(env, "arg", list(fids) + [8], 2)
    env.assume(8 in fs)
    before = set(cpins)
    ret = None
    try:
        ret = idx.create_cluster_from_features(fs)
    except hr.sqlite3.Error:
        env.reach("refused")
    else:
        known = [f for f in fs if f != 8]
        env.check(ret not in before, "the new cluster's id was not in use")
        assign = {**assign, **{f: ret for f in known}}
        pins = {**pins, **{f: pins.get(f, False) for f in known}}
    env.check(not idx.db.in_transaction, "no transaction is left open")
    fc, cl = K.read_model(K.reader(env, idx))
    check_result(env, fc, cl, ret, assign, pins, cpins)


def run_init(env, F, n, D, include, before):
    idx, fids, bits, assign, pins, cpins = state(env, F, 1, D, fixed=before)
    min_docs = env.int("min_docs", 0, D + 1)
    idx.initialise_clusters(n, min_docs=min_docs, include_fields=include)
    fc, cl = K.read_model(K.reader(env, idx))
    ids = dict((f, K.FIELDS[i]) for i, f in enumerate(fids))
    for f in fids:
        wanted = env.and_(K.card(env, bits[f]) >= min_docs, include is None or ids[f] in include)
        env.check(env.iff(f in fc, wanted), "exactly the selected features are in the model")
        if f in fc:
            env.check(fc[f][0] in range(n), "only the requested clusters are used")
            env.check(env.same(fc[f][2], 0), "a new model has no pinned features")
    sizes = [sum(1 for v in fc.values() if v[0] == c) for c in range(n)]
    env.check(max(sizes) - min(sizes) <= 1, "features are distributed evenly")
    env.check(sorted(cl) == [c for c in range(n) if sizes[c]], "exactly the used clusters exist")
    for c in cl:
        env.check(env.same(cl[c][4], 0), "a new model has no pinned clusters")
    if len(fc) > 1:
        env.reach("initialised")
    env.observe("n", sorted(fc))


SCENARIOS = {
    "edit": {
        "run": run_op,
        "quick": [dict(op=o, F=3, C=2, D=1, nargs=2) for o in OPS]
        + [dict(op="create_cluster", F=3, C=2, D=1, nargs=1, cids=c) for c in ((1, 2), (2, 1), (0, 1))]
        + [dict(op=o, F=3, C=3, D=1, nargs=2, cids=(2, 1, 3), fixed=(1, 2, 3)) for o in OPS],
        "thorough": [dict(op=o, F=4, C=3, D=1, nargs=3, cids=c) for o in OPS for c in (None, (2, 1, 3))],
        "reach": ["edited", "created"],
    },
    "large": {
        "run": run_large,
        "quick": [dict(op=o, sizes=s, pinned=(0, 2, 10)) for o in OPS for s in ((1,) * 12, (9, 1, 7), (24, 1, 3))],
        "thorough": [dict(op=o, sizes=s, pinned=(0, 2, 3, 10, 11)) for o in OPS for s in ((1,) * 24, (15, 1, 17), (2, 1) * 6)],
        "reach": ["edited", "created"],
    },
    "nested": {
        "run": run_nested,
        "quick": [dict(ops=o, F=3, C=2, D=1, nargs=1) for o in (
            ["create_cluster", "create_cluster"], ["delete_clusters", "create_cluster"], ["create_cluster", "merge_clusters"],
            ["pin_features", "delete_features"], ["create_cluster", "pin_clusters"])],
        "thorough": [dict(ops=[a, b], F=3, C=2, D=1, nargs=2) for a in OPS for b in OPS] + [dict(ops=["create_cluster"] * 3, F=3, C=2, D=1, nargs=1)],
        "reach": ["several created"],
    },
    "unknown": {
        "run": run_unknown,
        "quick": [dict(F=3, C=2, D=1, fixed=(1, 2, 0)), dict(F=2, C=2, D=1, fixed=(1, 1), cids=(1, 2))],
        "reach": ["refused"],
    },
    "initialise": {
        "run": run_init,
        "quick": [
            dict(F=4, n=2, D=2, include=None, before=[0, 1, 0, 1]),
            dict(F=4, n=3, D=1, include=None, before=[0, 0, 0, 0]),
            dict(F=4, n=3, D=1, include=["text"], before=[1, 1, 1, 1]),
            dict(F=4, n=1, D=1, include=["Tag 1", "text", "none"], before=[1, 1, 0, 0]),
            dict(F=4, n=2, D=1, include=["text", "text"], before=[1, 1, 0, 0]),
            dict(F=4, n=2, D=1, include=["tag 1", "tex_", "Tag%"], before=[1, 1, 0, 0]),
            dict(F=4, n=2, D=1, include=["Tag 1", "TEXT"], before=[1, 1, 0, 0]),
        ],
        "reach": ["initialised"],
    },
}
