"""C03: recorded positions reconstruct every token sequence exactly."""
from engine import hr
from . import common as K
from . import indexing as X

BOUNDS = {
    "quick": "up to 5 documents of up to 3 tokens out of 3 values in 1-2 fields, empty, absent and unordered fields, batches of 1-5 "
    "documents finishing in any order; 34 documents in 12 batches, 230 in 3, and documents of 40-900 tokens, the tokens of one document arbitrary",
    "thorough": "up to 6 documents and 4 tokens a document",
}
ASSUMPTIONS = ["The corpus gives out the documents asked for, in the order asked for (C21 decides this for the corpora provided)."]


def run(env, shape, V, batch, sched="order", workers=2, free=None):
    docs = X.content(env, shape, V, free=free)
    idx = K.new_index(env, corpus=X.corpus(docs), workers=workers)
    env.schedule = sched
    idx.index(doc_batch_size=batch, index_positions=True)
    db = K.reader(env, idx)
    ids = X.check_docs(env, db, docs)
    X.check_positions(env, db, docs, ids, V)
    present = {}
    for f in X.fields_of(docs):
        for v in range(V):
            present[f, v] = env.mkbits([env.or_(*[env.eq(x, env.vconst(v)) for x in doc.get(f, ("", []))[1]]) for _, doc in docs])
    X.check_summary(env, idx, docs, V, present, True)
    fields = sorted(f for f in X.fields_of(docs) if any(f in doc and doc[f][0] in X.SEQ and doc[f][1] for _, doc in docs))
    env.check(sorted(idx.positional_fields) == fields, "the fields with positions are known")
    if fields:
        env.reach("positions")
    if len(env.completed) > 1:
        env.reach("several batches")
    pos = list(
        idx.db.execute(
            "select field, value, first_doc_id, positions from position_index pi inner join inverted_index ii on ii.feature_id = pi.feature_id"
        )
    )
    obs = {}
    for f, val, first, ps in pos:
        for p in K.sorted_positions(env, ps):
            obs.setdefault((f, first), []).append((p, env.ite(env.bit(ps, p), 1, 0)))
    env.observe("positions", sorted((k, p, env.count([env.eq(n, 1) for q, n in v if q == p])) for k, v in obs.items() for p in sorted(set(q for q, _ in v))))


L, S, T = "list", "set", "tuple"


def T1(*ns, f="text", kind=L):
    return [{f: (kind, n)} for n in ns]


QUICK = [
    dict(shape=T1(2, 1, 2), V=2, batch=2),
    dict(shape=T1(1, 0, 2, 1), V=3, batch=4),
    dict(shape=T1(2, 2, kind=T), V=3, batch=1),
    dict(shape=[{"text": (L, 1), "Text": (L, 1)}, {"text ": (L, 1), "te_t": (L, 1)}], V=2, batch=1),
    dict(shape=[{"text": (L, 2), "Text": (L, 1)}, {"text": (L, 1), "Text": (L, 1)}], V=1, batch=2),
    dict(shape=T1(3, 1), V=2, batch=2),
    dict(shape=T1(0, 1, 1, 0, 1), V=2, batch=2, workers=1),
    dict(shape=[{"text": (L, 1), "tag": (S, 1)}, {"tag": (L, 1)}, {"text": (L, 2), "tag": (L, 0)}], V=2, batch=3),
    dict(shape=[{"text": (L, 1), "body": (L, 2)}, {"body": (T, 1)}, {"text": (L, 1), "body": (L, 0)}], V=2, batch=2),
    dict(shape=[{"text": (L, 1), "body": (L, 2)}, {"text": (L, 1), "body": (L, 1)}, {"text": (L, 1)}], V=2, batch=3),
    dict(shape=[{"text": (L, 0)}, {"tag": (S, 1)}], V=2, batch=1),
    dict(shape=T1(1, 1, 1, 1), V=2, batch=1, workers=1, sched="free"),
    dict(shape=T1(2, 2, 2), V=3, batch=2),
    dict(shape=T1(1, 1, 0, 1, 1, 1), V=2, batch=3, workers=1),
    dict(shape=X.many(34), V=6, batch=3, free=[30], sched="last"),
    dict(shape=T1(0, 40, 3, 70, 2), V=5, batch=4, free=[4], sched="fixed"),
    dict(shape=T1(2, 700, 1, 900, 3), V=3, batch=3, free=[4], sched="fixed"),
    dict(shape=X.many(230), V=6, batch=100, free=[130], sched="last"),
]
SCENARIOS = {
    "positions": {
        "run": run,
        "quick": QUICK,
        "thorough": QUICK
        + [dict(shape=T1(2, 2, 2), V=3, batch=b) for b in (1, 2, 3)]
        + [dict(shape=T1(2, 2, 2, 2), V=3, batch=b) for b in (2, 3, 4)]
        + [dict(shape=T1(3, 2, 3), V=3, batch=b) for b in (1, 2, 3)]
        + [dict(shape=T1(4, 1, 2), V=2, batch=b) for b in (1, 2, 3)]
        + [dict(shape=T1(1, 1, 0, 1, 1, 1), V=2, batch=b, workers=w) for b in (1, 2, 3) for w in (1, 2)]
        + [
            dict(shape=[{"text": (L, 1), "body": (L, 2)}, {"body": (T, 2)}, {"text": (L, 1), "body": (L, 0), "tag": (S, 1)}], V=2, batch=b, sched="free")
            for b in (1, 2, 3)
        ],
        "reach": ["positions", "several batches"],
    }
}
