"""C18: cross-tabulations and the cluster graph report exact overlaps."""
from engine import hr
from . import common as K
from . import indexing as X
from . import models as M
from .c17 import inter, total

BOUNDS = {
    "quick": "up to 4 features in two fields over 3 documents, 0-2 queries; graphs over 3 clusters of 1-2 features over 2-3 documents in "
    "any completion order; 120 values and 14 clusters with fixed document sets but for three features and two documents; 130 features over 400 documents; values of every kind, alike but for case, spaces or type; also with an index object used before its documents or its model changed",
    "thorough": "5 features, 4 documents, 3 queries; 3 clusters over 4 documents",
}


def run_field(env, D, queries, ids=None, fields=None, large=0, order=None, history=False):
    if large:
        # fixed document sets, but for the last two documents and three features
        ids = list(range(1, 2 * large, 2))
        fields = [("tag", "tag", "Tag")[i % 3] for i in range(large)]
    idx = K.new_index(env)
    K.add_docs(env, idx, ["k%d" % d for d in range(D)])
    bits = {f: env.bits("docs%d" % f, D) for f in ids if not large}
    if large:
        for i, f in enumerate(ids):
            bits[f] = hr.BitMap([(3 * i + j) % (D - 2) for j in range(1 + (7 * i) % 13)])
            if i in (0, large // 2, large - 1):
                bits[f] = bits[f] | env.bits("docs%d" % f, 2, base=D - 2)
    # values are not in the order of the ids
    val = {f: (3 * i + 1) % len(ids) if len(ids) % 3 else len(ids) - 1 - i for i, f in enumerate(ids)}
    feats = [(f, fields[i], env.vconst(val[f]), hr.BitMap([i % D]) if history else bits[f]) for i, f in enumerate(ids)]
    K.add_features(env, idx, feats)
    if history:
        # other documents were there when the index object was used before
        idx.intersect_queries_with_field({"q": hr.BitMap([0])}, "tag")
        [list(idx.iter_field_docs("tag")), K.look(env, idx, ids)]
        M.reindex(env, idx, [(fields[i], env.vconst(val[f]), bits[f]) for i, f in enumerate(ids)], D)
    qs = {"q%d" % i: env.bits("query%d" % i, D) for i in range(queries)}
    if large:
        qs = {k: hr.BitMap(range(i, D - 2, 2 + i)) | env.bits("query%d" % i, 2, base=D - 2) for i, k in enumerate(sorted(qs))}
        env.reach("large")
    before = {k: q.copy() for k, q in qs.items()}
    values, totals, inters = idx.intersect_queries_with_field(qs, "tag")
    env.check(env.same(before, qs), "the queries are not modified")
    mine = sorted((f for i, f in enumerate(ids) if fields[i] == "tag"), key=lambda f: order[val[f]] if order else val[f])
    got = list(values)
    # values without documents may be left out
    want = [f for f in mine if any(v == env.vconst(val[f]) for v in got)]
    env.check(env.same(got, [env.vconst(val[f]) for f in want]), "the values of the field, in order")
    for f in mine:
        if f not in want:
            env.check(env.eq(K.card(env, bits[f]), 0), "only values without documents are left out")
    env.check(len(totals) == len(got), "aligned lists")
    for f, t in zip(want, totals):
        env.check(env.eq(t, K.card(env, bits[f])), "document count of the value")
    for name, q in qs.items():
        col = list(inters[name]) if name in inters else []
        env.check(len(col) == len(got), "aligned lists")
        for f, n in zip(want, col):
            env.check(env.eq(n, inter(env, q, bits[f], D)), "documents shared with the query")
            env.reach("shared")
    env.check(all(n in qs for n in inters), "only the given queries are reported")
    env.observe("table", [got, totals, sorted((k, list(v)) for k, v in inters.items())])


def run_order(env, use):
    """values of every kind, in order"""
    n = X.use_values(env, use)
    run_field(env, 2, 1, ids=list(range(1, n + 1)), fields=["tag"] * n, order=[X.ORDER[i] for i in use])


def run_graph(env, F=None, C=None, D=20, fixed=None, schedule="free", include_field=True, sizes=None, free=()):
    if sizes:
        env.reach("large")
        idx, fids, bits, assign, pins, cpins = M.large_state(env, sizes, free, D=D)
    else:
        idx, fids, bits, assign, pins, cpins = M.state(env, F, C, D, fixed=fixed)
    env.schedule = schedule
    g = idx.create_cluster_cooccurrence_graph(top_k=1 + env.pick("top k", 2), include_field_in_label=include_field)
    clusters = sorted(set(assign.values()))
    docs = {c: K.union(env, [bits[f] for f in assign if assign[f] == c]) for c in clusters}
    env.check(sorted(g.nodes) == clusters, "one node per cluster")
    edges = {}
    for a, b, data in g.edges(data=True):
        env.check(a != b, "no cluster is connected with itself")
        edges[min(a, b), max(a, b)] = data
    for c in clusters:
        if c in g.nodes:
            env.check(env.eq(g.nodes[c].get("document_count"), K.card(env, docs[c])), "document count of a node")
    for i, a in enumerate(clusters):
        for b in clusters[i + 1 :]:
            n = inter(env, docs[a], docs[b], D)
            env.check(env.iff((a, b) in edges, n > 0), "an edge exactly for clusters sharing a document")
            if (a, b) in edges:
                env.check(env.eq(edges[a, b]["weight"], n / total(env, docs[a], docs[b], D)), "weight is the similarity")
                env.reach("edge")
    env.check(all(a in clusters and b in clusters for a, b in edges), "edges connect clusters")
    env.observe("graph", sorted([a, b, d["weight"]] for (a, b), d in edges.items()))


SCENARIOS = {
    "history": {
        "run": M.aged(run_graph),
        "quick": [
            dict(history="edit", F=3, C=3, D=2, fixed=[1, 2, 3], schedule="last"),
            dict(history="reindex", F=3, C=3, D=2, fixed=[1, 2, 3], schedule="last"),
            dict(history="edit", F=3, C=2, D=1, fixed=[1, 2, 0], schedule="last"),
        ],
        "thorough": [
            dict(history="edit", F=3, C=3, D=3, fixed=[1, 2, 3], schedule="last"),
            dict(history="reindex", F=3, C=3, D=3, fixed=[1, 2, 3], schedule="last"),
        ],
        "reach": ["edited", "reindexed"],
    },
    "field": {
        "run": run_field,
        "quick": [
            dict(ids=[1, 2, 4], fields=["tag", "Tag", "tag"], D=3, queries=2),
            dict(ids=[1, 2, 4, 5], fields=["tag", "tag", "Tag", "tag"], D=2, queries=1),
            dict(ids=[1, 2], fields=["tag", "Tag"], D=2, queries=0),
            dict(large=120, D=20, queries=2),
            dict(ids=[1, 2, 4], fields=["tag", "Tag", "tag"], D=2, queries=1, history=True),
        ],
        "thorough": [
            dict(ids=[1, 2, 4, 5, 7], fields=["tag", "tag", "Tag", "tag", "tag"], D=3, queries=2),
            dict(ids=[1, 2, 4], fields=["tag", "tag", "tag"], D=4, queries=3),
        ],
        "reach": ["shared", "large"],
    },
    "order": {
        "run": run_order,
        "quick": [dict(use=u) for u in ([0, 1, 2], [9, 10, 11, 12], [5, 7, 15], [14, 13, 17, 8], [6, 4, 3])],
        "thorough": [dict(use=u) for u in ([0, 1, 2, 3, 4], [9, 10, 11, 12, 15], [5, 7, 15, 16, 9])],
        "reach": ["shared"],
    },
    "graph": {
        "run": run_graph,
        "quick": [
            dict(F=3, C=3, D=2, fixed=[1, 2, 3]),
            dict(F=3, C=2, D=3, fixed=[1, 2, 1]),
            dict(sizes=[1] * 14, free=[0, 5, 13], schedule="last"),
            dict(sizes=[60, 1, 70] + [1] * 8, free=[0, 5], schedule="last", D=400),
        ],
        "thorough": [
            dict(F=3, C=3, D=3, fixed=[1, 2, 3]),
            dict(F=4, C=3, D=3, fixed=[1, 2, 3, 2], schedule="last"),
        ],
        "reach": ["edge", "large"],
    },
}
