"""C02: re-indexing keeps feature ids and the model, and replaces the content."""
from engine import hr
from . import common as K
from . import indexing as X

BOUNDS = {
    "quick": "an index of 2-3 features in 2 fields over 2 documents with arbitrary document sets, positions and any model of up to 2 clusters "
    "with pins; a new corpus of 1-3 documents of 1-2 fields with values out of 2-3; batches of 1-3 documents, every completion order; "
    "re-indexed once or twice; values that are numbers, texts and bytes, alike but for case, spaces or type; also with an index object that was read before the documents changed",
    "thorough": "4 features, 3 new documents of 2 values, 2 clusters",
}

CIDS = (0, 2, 3)


def old_state(env, feats, D, C, fixed=None, corpus=None, positions=True, workers=2):
    """an index with arbitrary content and an arbitrary model on it"""
    idx = K.new_index(env, corpus=corpus, workers=workers)
    K.add_docs(env, idx, ["k%d" % d if d else X.KEYS[0] for d in range(D)])
    fids = [2 * i + 3 for i in range(len(feats))]
    bits = {f: env.bits("old%d" % f, D) for f in fids}
    K.add_features(env, idx, [(f, field, env.vconst(v), bits[f]) for f, (field, v) in zip(fids, feats)])
    if positions:
        # content of the old position tables does not matter, only that it is there
        for field in sorted(set(f for f, _ in feats)):
            idx.db.execute(
                "insert into position_doc_map values(?, ?, ?, ?, ?, ?)", (field, 0, D - 1, 1, hr.BitMap([0]), hr.BitMap([0, 1]))
            )
            idx.db.execute("update field_summary set position_count = ? where field = ?", (1, field))
        for f in fids:
            idx.db.execute(
                "insert into position_index(feature_id, first_doc_id, position_count, positions) values(?, ?, ?, ?)",
                (f, 0, 1, hr.BitMap([0])),
            )
    assign = {}
    for i, f in enumerate(fids):
        c = fixed[i] if fixed is not None else env.pick("cluster of %d" % f, C + 1)
        if c:
            assign[f] = CIDS[c - 1]
    pins = {f: env.bool("pin%d" % f) for f in assign}
    cpins = {c: env.bool("cpin%d" % c) for c in sorted(set(assign.values()))}
    K.set_model(env, idx, assign, bits, pins, cpins)
    return idx, fids, bits, assign, pins, cpins


def check_new(env, idx, db, feats, fids, assign, pins, cpins, docs, V, positions, label="", public=True):
    """the index describes the new corpus, with the ids and the model kept"""
    old = sorted(set(f for f, _ in feats))
    ids, rows, present = X.check_features(env, idx, db, docs, V, label, old=old, public=public)
    by = {r[0]: r for r in rows}
    bits = {}
    for f, (field, v) in zip(fids, feats):
        env.check(f in by, label + "no feature disappears")
        if f in by:
            env.check(env.same(by[f][1:3], (field, env.vconst(v))), label + "features keep their ids")
        bits[f] = present.get((field, v), hr.BitMap())
    fc, cl = K.check_summaries(env, db, bits, label)
    env.check(sorted(fc) == sorted(assign), label + "the model keeps its features")
    for f in assign:
        if f in fc:
            env.check(env.same(fc[f][0], assign[f]), label + "every feature keeps its cluster")
            env.check(env.same(fc[f][2], env.ite(pins[f], 1, 0)), label + "every feature keeps its pin")
    for c in sorted(set(assign.values())):
        env.check(c in cl, label + "no cluster disappears")
        if c in cl:
            env.check(env.same(cl[c][4], env.ite(cpins[c], 1, 0)), label + "every cluster keeps its pin")
    if positions:
        X.check_positions(env, db, docs, ids, V, label)
    else:
        n = list(db.execute("select (select count(*) from position_index), (select count(*) from position_doc_map)"))[0]
        env.check(tuple(n) == (0, 0), label + "no positions of the previous documents remain")
    X.check_summary(env, idx, docs, V, present, positions, label)
    return present


def run(env, feats, D, C, shape, V, batch, positions=False, fixed=None, sched="order", twice=None, free=None):
    feats = [tuple(f) for f in feats]
    docs = X.content(env, shape, V, free=free)
    idx, fids, bits, assign, pins, cpins = old_state(env, feats, D, C, fixed, corpus=X.corpus(docs))
    env.schedule = sched
    K.look(env, idx, fids, sorted(set(assign.values())), [(f, env.vconst(v)) for f, v in feats])
    for d in range(D):
        idx.convert_query_to_keys(hr.BitMap([d])).clear()
    idx.index(doc_batch_size=batch, index_positions=positions)
    db = K.reader(env, idx)
    present = check_new(env, idx, db, feats, fids, assign, pins, cpins, docs, V, positions)
    for d, k in list(db.execute("select doc_id, doc_key from doc_key"))[:4]:
        env.check(dict(idx.convert_query_to_keys(hr.BitMap([d]))) == {k: d}, "a document id names its new document")
    if assign:
        env.reach("model kept")
    if any(p not in feats for p in present):
        env.reach("new feature")
    if any(f not in present for f in feats):
        env.reach("vanished feature")
    env.check(not idx.db.in_transaction, "no transaction is left open")
    if twice is not None:
        docs = X.content(env, twice, V, "again", free=free)
        idx.corpus = X.corpus(docs)
        idx.index(doc_batch_size=batch, index_positions=not positions)
        check_new(env, idx, db, feats, fids, assign, pins, cpins, docs, V, not positions, "again: ")
    K.check_reads(env, idx, db)
    # what can be read of the clusters
    for c in sorted(set(assign.values())):
        env.check(
            env.same(idx.cluster_docs(c), K.union(env, [idx[f] for f in assign if assign[f] == c])),
            "the documents of a cluster are those of its features",
        )
    env.observe("features", sorted(((f, v), idx[(f, env.vconst(v))]) for f, v in present))
    K.observe_model(env, idx.db)


def run_values(env, feats, shape, use, **kw):
    """values of every kind"""
    run(env, feats, shape=shape, V=X.use_values(env, use), **kw)


L, S = "list", "set"
FEATS = [("text", 0), ("text", 1), ("tag", 0)]
SCENARIOS = {
    "reindex": {
        "run": run,
        "quick": [
            dict(feats=FEATS, D=2, C=2, shape=[{"text": (L, 1)}, {"text": (L, 1)}], V=2, batch=1),
            dict(feats=FEATS, D=2, C=2, shape=[{"text": (L, 2)}, {"new": (S, 1)}], V=2, batch=2, positions=True, fixed=[1, 1, 2]),
            dict(feats=FEATS[:2], D=2, C=2, shape=[{"text": (L, 1)}] * 3, V=3, batch=2, positions=True, fixed=[1, 2]),
            dict(feats=FEATS[1:], D=2, C=2, shape=[{"tag": (S, 1), "text": ("tuple", 1)}], V=2, batch=2),
            dict(feats=[("text", 0), ("Text", 0), ("te_t", 0)], D=1, C=2, shape=[{"Text": (L, 1), "text ": (L, 1)}, {"te_t": (L, 1)}], V=1, batch=2, positions=True, fixed=[1, 2, 1]),
            dict(feats=FEATS, D=2, C=2, shape=[], V=1, batch=2, fixed=[1, 2, 0]),
            dict(feats=FEATS[:2], D=1, C=2, shape=[{"text": (L, 1)}], V=2, batch=1, fixed=[1, 1], twice=[{"text": (L, 1)}, {"text": (L, 1)}]),
            dict(feats=[("text", v) for v in range(0, 9, 2)] + [("tag", 1), ("tag", 8), ("gone", 0)], D=1, C=2, shape=X.many(31), V=9, batch=4, free=[30], sched="last", positions=True, fixed=[1, 2, 1, 2, 1, 1, 2, 2], twice=X.many(7)),
        ],
        "thorough": [
            dict(feats=FEATS + [("other", 1)], D=2, C=2, shape=[{"text": (L, 2)}, {"text": (L, 1), "tag": (S, 1)}], V=2, batch=b, positions=p)
            for b in (1, 2)
            for p in (False, True)
        ]
        + [
            dict(feats=FEATS, D=3, C=2, shape=[{"text": (L, 2)}] * 2, V=3, batch=1, positions=True, twice=[{"text": (L, 2)}], fixed=[1, 2, 2]),
            dict(feats=FEATS, D=3, C=2, shape=[{"text": (L, 1)}] * 3, V=3, batch=2, fixed=[1, 2, 2], twice=[{"tag": (L, 2)}]),
        ],
        "reach": ["model kept", "new feature", "vanished feature"],
    },
    "values": {
        "run": run_values,
        "quick": [
            dict(feats=[("text", 0), ("text", 1), ("tag", 2)], D=1, C=2, shape=[{"text": (L, 2)}], use=[14, 13, 9], batch=1, fixed=[1, 1, 2]),
            dict(feats=[("text", 0), ("text", 1)], D=1, C=2, shape=[{"text": (S, 1)}, {"text": (L, 1)}], use=[9, 10, 11, 15], batch=2, fixed=[1, 2]),
            dict(feats=[("text", 0), ("text", 1)], D=1, C=2, shape=[{"text": (S, 1), "tag": (S, 1)}], use=[0, 1, 4, 12], batch=2, fixed=[1, 2], positions=True),
        ],
        "thorough": [
            dict(feats=[("text", 0), ("text", 1), ("tag", 2)], D=2, C=2, shape=[{"text": (k, 2), "tag": (S, 1)}], use=u, batch=1, fixed=[1, 1, 2], positions=p)
            for k in (L, S)
            for u in ([14, 13, 9], [9, 10, 11, 15], [0, 1, 4, 12], [5, 6, 7, 8])
            for p in (False, True)
        ],
        "reach": ["model kept", "new feature", "vanished feature"],
    },
}
