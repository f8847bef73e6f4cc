"""Building index states and reading them back; used by most scenarios."""
import os

from engine import hr, shims

FIELDS = ("text", "text", "Tag 1", "text", "Tag 1")


def value(env, i):
    """value of feature i, in field FIELDS[i % 5]: the same values occur in both"""
    return env.vconst((0, 1, 0, 2, 1)[i % 5] + 3 * (i // 5))


class Stub:
    """Corpus whose documents are given by the scenario."""

    CORPUS_TYPE = "stub"
    table_fields = ["body"]

    def __init__(self, docs, fail=None):
        # docs: list of (key, {field: values})
        self.items = list(docs)
        self.fail = fail

    def keys(self):
        for k, _ in self.items:
            yield k

    def docs(self, doc_keys=None, raise_on_missing=False):
        if doc_keys is None:
            for k, d in self.items:
                yield k, d
            return
        by = dict(self.items)
        for k in doc_keys:
            if k in by:
                yield k, by[k]

    def index(self, doc):
        return doc

    def serialize(self):
        return {}

    @classmethod
    def deserialize(cls, data):
        return cls([])

    def close(self):
        pass

    def __getitem__(self, key):
        return self.docs([key])

    def __iter__(self):
        return self.docs()

    def render_docs_html(self, doc_keys):
        for k, d in self.docs(doc_keys):
            yield k, "<%s>" % (d.get("body"),)

    def render_docs_table(self, doc_keys):
        for k, d in self.docs(doc_keys):
            yield k, {"body": d.get("body")}


def pool(n=2):
    return shims.Pool(n)


def new_index(env, corpus=None, workers=2, path=None, seed=None):
    if path is None:
        path = os.path.join(env.tmpdir(), "index.db")
    return hr.index.Index(path, corpus=corpus, pool=pool(workers), random_seed=seed)


def reader(env, idx):
    """an independent connection to the same database"""
    return hr.db_utilities.connect_sqlite(idx.db_path)


def add_docs(env, idx, keys):
    for d, k in enumerate(keys):
        idx.db.execute("insert into doc_key(doc_id, doc_key) values(?, ?)", (d, k))


def add_features(env, idx, feats):
    """feats: (feature_id, field, value, documents)"""
    for fid, field, value, docs in feats:
        idx.db.execute(
            "insert into inverted_index(feature_id, field, value, docs_count, doc_ids) values(?, ?, ?, ?, ?)",
            (fid, field, value, env.count([env.bit(docs, d) for d in sorted_positions(env, docs)]), docs),
        )
    for field in sorted(set(f[1] for f in feats)):
        idx.db.execute(
            "insert into field_summary(field, distinct_values, min_value, max_value, position_count) values(?, ?, ?, ?, 0)",
            (field, sum(1 for f in feats if f[1] == field), None, None),
        )


def sorted_positions(env, bm):
    return sorted(bm.d) if env.symbolic else sorted(bm)


def union(env, bms):
    r = hr.BitMap()
    for b in bms:
        r = r | b
    return r


def card(env, bm):
    return env.count([env.bit(bm, d) for d in sorted_positions(env, bm)])


def set_model(env, idx, assign, bits, pins=None, cpins=None):
    """assign: feature id -> cluster id.  Writes the model with summaries that
    agree with it, by plain SQL."""
    pins, cpins = pins or {}, cpins or {}
    for f, c in assign.items():
        idx.db.execute(
            "insert into feature_cluster(feature_id, cluster_id, docs_count, pinned) values(?, ?, ?, ?)",
            (f, c, card(env, bits[f]), env.ite(pins.get(f, False), 1, 0)),
        )
    for c in sorted(set(assign.values())):
        fs = [f for f in assign if assign[f] == c]
        u = union(env, [bits[f] for f in fs])
        w = 0
        for f in fs:
            w = w + card(env, bits[f])
        idx.db.execute(
            "update cluster set feature_count = ?, docs_count = ?, weight = ?, doc_ids = ?, pinned = ? where cluster_id = ?",
            (len(fs), card(env, u), w, u, env.ite(cpins.get(c, False), 1, 0), c),
        )
    idx.db.execute("delete from changed_cluster")


def read_model(db):
    """({feature: (cluster, docs_count, pinned)}, {cluster: (n, docs, weight, ids, pinned)})"""
    fc = {
        r[0]: r[1:]
        for r in db.execute("select feature_id, cluster_id, docs_count, pinned from feature_cluster order by feature_id")
    }
    cl = {
        r[0]: r[1:]
        for r in db.execute(
            "select cluster_id, feature_count, docs_count, weight, doc_ids, pinned from cluster order by cluster_id"
        )
    }
    return fc, cl


def check_summaries(env, db, bits, label=""):
    """C05: cluster summaries agree with membership"""
    fc, cl = read_model(db)
    members = {}
    for f, (c, n, p) in fc.items():
        members.setdefault(c, []).append(f)
        env.check(c in cl, label + "every feature is in an existing cluster")
        env.check(env.same(n, card(env, bits[f])), label + "recorded count of a feature is its document count")
    for c, (n, docs, weight, ids, pinned) in cl.items():
        fs = members.get(c, [])
        env.check(len(fs) > 0, label + "no empty cluster remains")
        env.check(env.same(n, len(fs)), label + "feature count of a cluster")
        u = union(env, [bits[f] for f in fs])
        w = 0
        for f in fs:
            w = w + card(env, bits[f])
        env.check(env.same(ids, u), label + "cluster documents are the union of its features'")
        env.check(env.same(docs, card(env, u)), label + "document count of a cluster")
        env.check(env.same(weight, w), label + "weight of a cluster")
    n = list(db.execute("select count(*) from changed_cluster"))[0][0]
    env.check(env.same(n, 0), label + "no stale summary is left")
    return fc, cl


def observe_model(env, db, label="model"):
    fc, cl = read_model(db)
    env.observe(label, [sorted((k,) + tuple(v) for k, v in fc.items()), sorted((k,) + tuple(v) for k, v in cl.items())])


def spoil(bm):
    """what was given out is the caller's: changing it changes no later answer"""
    if isinstance(bm, hr.BitMap):
        bm.clear()


def look(env, idx, fids=(), clusters=(), keys=()):
    """reads features and clusters, and changes what is given out"""
    for f in fids:
        spoil(idx[f])
        idx.lookup_feature(f)
    for k in keys:
        spoil(idx[k])
    for c in clusters:
        spoil(idx.cluster_docs(c))
    idx.cluster_ids


def check_reads(env, idx, db, label="", fids=(), queries=False):
    """the reading methods of an index object agree with what is stored, however
    often and whatever was read before"""
    fc, cl = read_model(db)
    env.check(list(idx.cluster_ids) == sorted(cl), label + "the clusters reported are those stored")
    for c in cl:
        env.check(env.same(idx.cluster_docs(c), cl[c][3]), label + "the documents reported for a cluster are those stored")
        if queries:
            env.check(
                sorted(r[0] for r in idx.cluster_features(c)) == sorted(f for f in fc if fc[f][0] == c),
                label + "the features reported for a cluster are those stored",
            )
            env.check(env.same(idx.cluster_query(c)[0], cl[c][3]), label + "the documents with any feature of a cluster are its documents")
    if fids:
        stored = {r[0]: r[1] for r in db.execute("select feature_id, doc_ids from inverted_index")}
        for f in fids:
            for i in range(2):
                got = idx[f]
                env.check(env.same(got, stored[f]), label + "the documents reported for a feature are those stored")
                spoil(got)
