"""C01: a feature query returns exactly the documents containing that feature."""
import os

from engine import hr
from . import common as K
from . import indexing as X

L, S = "list", "set"
# fields alike but for case, spaces or type
NAMED = [{"text": (L, 1), "Text": (L, 1), "te_t": (S, 1)}, {"text ": (L, 1), "it's": (S, 1)}, {"\u00e9 \"x\"": (L, 1), "": (L, 1)}]
BOUNDS = {
    "quick": "3-4 documents, 2 fields of up to 2 values out of 3, as lists, tuples, sets or sets with missing values; batches of 1-5 "
    "documents, 1-3 workers, every completion order; with and without positions; an empty corpus; a given working directory; values "
    "that are numbers, texts and bytes, also zero and empty ones, or alike but for case, spaces or type; 26-37 documents in 10-26 batches, those of one document "
    "arbitrary; 520 documents in batches of 100, and 1105 in batches of the usual size; keys that are texts, numbers, texts that look like numbers, or texts alike but for case or spaces; fields alike but for case or spaces; looked up, indexed again by the same or another object and looked up again",
    "thorough": "5 documents, values out of 4, every batch size",
}
ASSUMPTIONS = ["The corpus gives out the documents asked for, in the order asked for (C21 decides this for the corpora provided)."]


def run(env, shape, V, batch, workers=2, positions=False, sched="order", working_dir=False, free=None, keys=X.KEYS):
    docs = X.content(env, shape, V, free=free, keys=keys)
    idx = K.new_index(env, corpus=X.corpus(docs), workers=workers)
    env.schedule = sched
    kw = {}
    if working_dir:
        kw["working_dir"] = env.tmpdir()
    if batch is not None:
        kw["doc_batch_size"] = batch
    idx.index(index_positions=positions, **kw)
    if working_dir:
        env.check(os.path.isdir(kw["working_dir"]), "the given working directory is kept")
        env.check(os.listdir(kw["working_dir"]) == [], "temporary files are cleaned up")
    db = K.reader(env, idx)
    ids, rows, present = X.check_features(env, idx, db, docs, V)
    X.check_summary(env, idx, docs, V, present, positions)
    if rows:
        env.reach("indexed")
    if len(env.completed) > 1:
        env.reach("several batches")
    env.observe("features", sorted(((f, v), idx[(f, env.vconst(v))]) for f, v in present))


def run_again(env, shape, again, V, batch, positions=False, other=False):
    """the documents changed since a feature was last looked up"""
    docs = X.content(env, shape, V)
    idx = K.new_index(env, corpus=X.corpus(docs))
    env.schedule = "last"
    idx.index(doc_batch_size=batch, index_positions=positions)
    db = K.reader(env, idx)
    X.check_features(env, idx, db, docs, V)
    old = X.fields_of(docs)
    docs = X.content(env, again, V, "again")
    if other:
        # another object, as in another process, indexes the new documents
        hr.index.Index(idx.db_path, corpus=X.corpus(docs), pool=K.pool(2)).index(doc_batch_size=batch, index_positions=positions)
    else:
        idx.corpus = X.corpus(docs)
        idx.index(doc_batch_size=batch, index_positions=positions)
    ids, rows, present = X.check_features(env, idx, db, docs, V, "again: ", old=old)
    env.reach("indexed again")
    env.observe("features", sorted(((f, v), idx[(f, env.vconst(v))]) for f, v in present))


def run_values(env, shape, use, **kw):
    """values of every kind, also those that count as false"""
    run(env, shape, X.use_values(env, use), **kw)


L, S = "list", "set"
SHAPES = [
    [{"text": (L, 2), "tag": (S, 1)}, {"text": (L, 1)}, {"text": (L, 0), "tag": (S, 2)}],
    [{"text": (L, 1)}, {"text": (L, 1)}, {"text": (L, 1)}, {"text": (L, 1)}],
    [{"tag": ("none", 1)}, {"tag": ("none", 0)}, {"tag": ("frozenset", 2), "text": ("tuple", 2)}],
]
SCENARIOS = {
    "index": {
        "run": run,
        "quick": [
            dict(shape=SHAPES[0], V=2, batch=1, workers=1),
            dict(shape=SHAPES[0], V=2, batch=2, positions=True),
            dict(shape=SHAPES[1], V=2, batch=1, workers=2),
            dict(shape=SHAPES[1], V=3, batch=3, workers=3),
            dict(shape=SHAPES[1], V=2, batch=1, workers=1, positions=True, sched="free"),
            dict(shape=SHAPES[1], V=1, batch=1, workers=2, sched="free"),
            dict(shape=SHAPES[2], V=2, batch=1, workers=3),
            dict(shape=SHAPES[2], V=3, batch=5),
            dict(shape=SHAPES[1][:2], V=3, batch=2, working_dir=True),
            dict(shape=[], V=1, batch=2),
            dict(shape=[{}, {}], V=1, batch=1),
            dict(shape=SHAPES[1], V=2, batch=3, keys=["10", "020", "3.0", "-1"]),
            dict(shape=SHAPES[1], V=2, batch=2, keys=[30, 4, -5, 0]),
            dict(shape=SHAPES[1], V=2, batch=2, keys=["a", "A", "a ", ""]),
            dict(shape=NAMED, V=2, batch=2),
            dict(shape=NAMED, V=1, batch=1, positions=True),
            dict(shape=X.many(37), V=11, batch=4, free=[30], sched="last", positions=True),
            dict(shape=X.many(26), V=5, batch=1, free=[15], sched="fixed", workers=3),
            dict(shape=X.many(1105), V=6, batch=None, free=[600], sched="last"),
            dict(shape=X.many(520), V=5, batch=100, free=[510], sched="fixed", positions=True),
        ],
        "thorough": [dict(shape=s, V=v, batch=b, workers=w, positions=p) for s in SHAPES for v in (2, 3) for b in (1, 2, 4) for w in (1, 2, 3) for p in (False, True)]
        + [
            dict(shape=[{"text": (L, 1)}] * 5, V=v, batch=b, workers=w, positions=p, sched=sc)
            for v, b, w, sc in ((3, 2, 1, "order"), (3, 2, 2, "free"), (2, 1, 1, "order"), (2, 1, 3, "order"), (4, 3, 2, "free"))
            for p in (False, True)
        ]
        + [dict(shape=[{"text": (L, 2), "tag": (S, 2)}, {"text": (L, 2), "tag": (S, 2)}], V=3, batch=b) for b in (1, 2)]
        + [dict(shape=[], V=1, batch=2), dict(shape=[{}, {}], V=1, batch=1), dict(shape=SHAPES[1][:2], V=3, batch=2, working_dir=True)],
        "reach": ["indexed", "several batches"],
    },
    "again": {
        "run": run_again,
        "quick": [
            dict(shape=[{"text": (L, 1)}, {"text": (L, 1)}], again=[{"text": (L, 1)}, {"text": (S, 1)}], V=2, batch=1),
            dict(shape=[{"text": (L, 1), "tag": (S, 1)}], again=[{"text": (L, 1)}, {"tag": (S, 1)}], V=2, batch=2, positions=True, other=True),
        ],
        "thorough": [
            dict(shape=[{"text": (L, 2)}, {"text": (L, 1)}], again=[{"text": (L, 1)}, {"text": (S, 2), "tag": (L, 1)}], V=v, batch=b, other=o, positions=o)
            for v in (2, 3)
            for b in (1, 2)
            for o in (False, True)
        ],
        "reach": ["indexed again"],
    },
    "values": {
        "run": run_values,
        "quick": [
            dict(shape=[{"text": (L, 2)}, {"text": (L, 1)}], use=[0, 1, 2], batch=1),
            dict(shape=[{"text": ("none", 1)}, {"text": (S, 1), "tag": (L, 1)}], use=[3, 4, 0], batch=2, positions=True),
            dict(shape=[{"text": (L, 1)}, {"text": (S, 1)}, {}], use=[5, 6, 7, 8], batch=3),
            dict(shape=[{"text": (L, 1)}, {"text": (S, 1), "tag": (S, 1)}], use=[9, 10, 11, 12], batch=1),
            dict(shape=[{"text": (L, 1)}, {"text": (S, 1)}], use=[9, 15, 16, 13, 14, 17], batch=2),
        ],
        "thorough": [
            dict(shape=[{"text": (k, 2)}, {"text": (S, 1), "tag": (L, 1)}], use=u, batch=b, positions=p)
            for k in (L, S, "none")
            for u in ([0, 1, 2], [3, 4, 0], [5, 6, 7, 8], [9, 10, 11, 12], [13, 14, 17], [9, 15, 16])
            for b in (1, 2)
            for p in (False, True)
        ],
        "reach": ["indexed"],
    },
}
