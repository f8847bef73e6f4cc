"""C19: model listings and exports are complete and correctly ordered."""
import csv
import io
import os

from engine import hr
from . import common as K
from . import models as M
from . import web

BOUNDS = {
    "quick": "every model of up to 3-4 features in up to 3 clusters over 3 documents, every truncation; models of 300 clusters and of "
    "47-232 features with fixed document sets but for one feature; exports of every such model; also with an index object used before its documents or its model changed",
    "thorough": "4 features, 3 clusters, 3 documents",
}


def check_list(env, rows, members, fids, bits, k):
    """rows: (feature_id, field, value, count) of one cluster"""
    ids = [r[0] for r in rows]
    env.check(len(set(ids)) == len(ids) and all(f in members for f in ids), "only the cluster's features, each once")
    env.check(len(ids) == min(k, len(members)), "all features up to the requested number")
    for r in rows:
        f = r[0]
        if f not in members:
            continue
        i = fids.index(f)
        env.check(env.same(tuple(r[1:]), (K.FIELDS[i % 5], K.value(env, i), K.card(env, bits[f]))), "field, value and count of the feature")
        for g in members:
            if g not in ids:
                env.check(K.card(env, bits[f]) >= K.card(env, bits[g]), "no more frequent feature is skipped")
    for a, b in zip(ids, ids[1:]):
        if a in bits and b in bits:
            env.check(K.card(env, bits[a]) >= K.card(env, bits[b]), "decreasing order of document count")


def model(env, F=None, C=None, D=None, fixed=None, sizes=None, free=()):
    if sizes:
        env.reach("large")
        return M.large_state(env, sizes, free)
    return M.state(env, F, C, D, fixed=fixed)


def run_lists(env, ks, **kw):
    idx, fids, bits, assign, pins, cpins = model(env, **kw)
    k = ks[env.pick("k", len(ks))]
    clusters = sorted(set(assign.values()))
    members = {c: [f for f in fids if assign.get(f) == c] for c in clusters}
    top = idx.top_cluster_features(**({} if k is None else {"top_k": k}))
    got = [c for c, _, _ in top]
    env.check(sorted(got) == clusters, "every cluster exactly once")
    size = {c: K.card(env, K.union(env, [bits[f] for f in members[c]])) for c in clusters}
    for c, n, feats in top:
        if c in size:
            env.check(env.eq(n, size[c]), "document count of the cluster")
            check_list(env, feats, members[c], fids, bits, 20 if k is None else k)
    for a, b in zip(got, got[1:]):
        if a in size and b in size:
            env.check(size[a] >= size[b], "clusters in decreasing order of document count")
    for c in clusters[:5] + [max(env.cids) + 1]:
        feats = idx.cluster_features(c, **({} if k is None else {"top_k": k}))
        if c in members:
            check_list(env, feats, members[c], fids, bits, 2**62 if k is None else k)
        else:
            env.check(list(feats) == [], "an unknown cluster has no features")
    env.check(list(idx.cluster_ids) == clusters, "cluster ids")
    env.check(
        env.same(set(idx.pinned_cluster_ids), set(c for c in clusters if cpins[c])), "pinned clusters"
    )
    if clusters:
        env.reach("listed")
    if len(clusters) > 1:
        env.reach("several")
    env.observe("sizes", [sorted(([c, n, len(f)] for c, n, f in top))])


def run_export(env, how, ks, **kw):
    idx, fids, bits, assign, pins, cpins = model(env, **kw)
    clusters = sorted(set(assign.values()))
    k = ks[env.pick("k", len(ks))]
    if how == "web":
        web.serve(env, idx)
        status, headers, text = web.request("GET", "/index/0/export_clusters", body=False)
        env.check(status == 200, "the export succeeds")
        if status != 200:
            return
    else:
        import click.testing

        out = os.path.join(env.tmpdir(), "clusters.csv")
        args = ["export", "clusters", idx.db_path, out] + ([] if k is None else ["--top-k-features", str(k)])
        r = click.testing.CliRunner().invoke(hr.cli.cli, args)
        if r.exception is not None and not isinstance(r.exception, SystemExit):
            raise r.exception
        env.check(r.exit_code == 0, "the export succeeds")
        if r.exit_code:
            return
        with open(out, newline="", encoding="utf-8") as f:
            text = f.read()
    limit = 10 if how == "cli" and k is None else (k or 2**62)
    rows = list(csv.reader(io.StringIO(text, newline="")))
    env.check(rows[0] == ["cluster_id", "feature_id", "field", "value", "docs_count"], "header")
    by = {c: [] for c in clusters}
    for r in rows[1:]:
        c = int(r[0])
        env.check(c in by, "only clusters of the model")
        if c in by:
            i = int(r[1])
            j = fids.index(i) if i in fids else -1
            env.check(j >= 0 and r[3] == str(K.value(env, j)), "value of the feature")
            by[c].append((i, r[2], K.value(env, max(j, 0)), int(r[4])))
    for c in clusters:
        check_list(env, by[c], [f for f in fids if assign.get(f) == c], fids, bits, limit)
    if len(rows) > 1:
        env.reach("exported")
    env.observe("rows", sorted([r[0], r[4]] for r in rows[1:]))


SCENARIOS = {
    "history": {
        "run": M.aged(run_lists),
        "quick": [
            dict(history="edit", F=3, C=2, D=2, fixed=[1, 2, 1], ks=[None, 1]),
            dict(history="reindex", F=3, C=2, D=2, fixed=[1, 2, 1], ks=[None, 1]),
            dict(history="edit", F=3, C=2, D=1, fixed=[1, 1, 0], ks=[None]),
        ],
        "thorough": [
            dict(history="edit", F=3, C=2, D=3, fixed=[1, 2, 1], ks=[None, 1, 2]),
            dict(history="reindex", F=3, C=2, D=3, fixed=[1, 2, 1], ks=[None, 1, 2]),
        ],
        "reach": ["edited", "reindexed"],
    },
    "lists": {
        "run": run_lists,
        "quick": [
            dict(F=3, C=2, D=2, ks=[None, 0, 1, 2]),
            dict(F=3, C=1, D=3, ks=[2], fixed=[1, 1, 1]),
            dict(F=3, C=3, D=3, ks=[1], fixed=[1, 2, 3]),
            dict(sizes=[3, 2], free=[0, 1], ks=[None, 1]),
            dict(sizes=[25, 2], free=[3], ks=[None, 22]),
            dict(sizes=[1] * 300, free=[7], ks=[None]),
        ],
        "thorough": [
            dict(F=4, C=3, D=2, ks=[None, 0, 1, 2, 3]),
            dict(F=4, C=2, D=3, ks=[1, 3], fixed=[1, 1, 2, 1]),
            dict(F=4, C=1, D=3, ks=[2], fixed=[1, 1, 1, 1]),
            dict(F=3, C=3, D=4, ks=[1], fixed=[1, 2, 3]),
        ],
        "reach": ["listed", "several", "large"],
    },
    "export": {
        "run": run_export,
        "quick": [
            dict(F=3, C=2, D=2, how="cli", ks=[None, 0, 1], fixed=[1, 2, 1]),
            dict(F=3, C=2, D=1, how="cli", ks=[0, 2]),
            dict(F=3, C=2, D=1, how="web", ks=[None]),
            dict(sizes=[230, 2], free=[3], how="web", ks=[None]),
            dict(sizes=[120, 2], free=[3], how="cli", ks=[None, 0]),
        ],
        "thorough": [
            dict(F=3, C=2, D=2, how="cli", ks=[None, 0, 1, 2]),
            dict(F=4, C=2, D=2, how="cli", ks=[0, 2], fixed=[1, 2, 1, 1]),
            dict(F=3, C=3, D=2, how="web", ks=[None]),
        ],
        "reach": ["exported", "large"],
    },
}
