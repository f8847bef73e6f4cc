"""C17: pivoting ranks clusters and features exactly by similarity."""
from engine import hr
from . import common as K
from . import models as M

BOUNDS = {
    "quick": "every query and every family of 3 features in 1-2 clusters over 3 documents, every k from 1 to 4; 10-64 clusters and 24-128 features over up to 220 documents with fixed document sets but for one or two features; selections of clusters, "
    "any completion order; also with an index object used before its documents or its model changed",
    "thorough": "4 features over 3-4 documents, up to 3 clusters",
}


def inter(env, a, b, D):
    return env.count([env.and_(env.bit(a, d), env.bit(b, d)) for d in range(D)])


def total(env, a, b, D):
    return env.count([env.or_(env.bit(a, d), env.bit(b, d)) for d in range(D)])


def run(env, ks, F=None, C=None, D=20, fixed=None, select=False, schedule="free", sizes=None, free=(), thin=(), first=None):
    if sizes:
        env.reach("large")
        idx, fids, bits, assign, pins, cpins = M.large_state(env, sizes, free, D=D, thin=thin)
        q = hr.BitMap(range(0, D - 2, 3)) | env.bits("query", 2, base=D - 2)
    else:
        idx, fids, bits, assign, pins, cpins = M.state(env, F, C, D, fixed=fixed)
        # which documents they are does not matter, only how many
        q = env.bits("query", D) if first is None else hr.BitMap(range(first))
    before = q.copy()
    k = ks[env.pick("k", len(ks))]
    clusters = sorted(set(assign.values()))
    arg, chosen = None, list(clusters)
    if select:
        arg = [c for c in reversed(clusters) if env.pick("use %d" % c, 2)]
        if arg:
            chosen = list(arg)
    env.schedule = schedule
    res = [r for r in idx.pivot_clusters_by_query(q, cluster_ids=arg, top_k=k)]
    env.check(env.same(before, q), "the query is not modified")
    docs = {c: K.union(env, [bits[f] for f in assign if assign[f] == c]) for c in clusters}
    got = [r[0] for r in res]
    env.check(len(set(got)) == len(got) and all(c in chosen for c in got), "only requested clusters, each once")
    for c in chosen:
        env.check(env.iff(c in got, inter(env, q, docs[c], D) > 0), "exactly the clusters sharing a document")
    order = []
    for c, sim, feats in res:
        if c not in docs:
            continue
        i, t = inter(env, q, docs[c], D), total(env, q, docs[c], D)
        env.check(env.eq(sim, i / t), "true similarity of the cluster")
        order.append(i / t)
        members = [f for f in fids if assign.get(f) == c]
        js = {f: inter(env, q, bits[f], D) / total(env, q, bits[f], D) for f in members}
        ids = [r[0] for r in feats]
        env.check(len(set(ids)) == len(ids) and all(f in members for f in ids), "only features of the cluster, each once")
        for f, field, value, s in feats:
            if f not in js:
                continue
            env.check(field == K.FIELDS[fids.index(f) % 5], "the field belongs to the feature")
            env.check(env.same(value, K.value(env, fids.index(f))), "the value belongs to the feature")
            env.check(env.eq(s, js[f]), "true similarity of the feature")
            env.check(js[f] > 0, "features sharing no document are left out")
            for g in members:
                if g not in ids:
                    env.check(env.le(js[g], js[f]), "no feature left out belongs in the top k")
        for a, b in zip(ids, ids[1:]):
            env.check(env.le(js[b], js[a]), "features in decreasing order of similarity")
        pos = env.count([js[f] > 0 for f in members])
        env.check(env.eq(len(ids), env.ite(pos < k, pos, k)), "as many as k of the features sharing documents")
        env.reach("features")
        if len(ids) == k and len(members) > k:
            env.reach("truncated")
    for a, b in zip(order, order[1:]):
        env.check(env.le(b, a), "clusters in decreasing order of similarity")
    env.observe("clusters", [(c, s, [f[3] for f in fs]) for c, s, fs in res])


SCENARIOS = {
    "history": {
        "run": M.aged(run),
        "quick": [
            dict(history="edit", F=2, C=2, D=2, fixed=[1, 2], ks=[2], schedule="last"),
            dict(history="reindex", F=2, C=2, D=2, fixed=[1, 2], ks=[2], schedule="last"),
            dict(history="edit", F=3, C=2, D=1, fixed=[1, 1, 0], ks=[2], schedule="last"),
        ],
        "thorough": [
            dict(history="edit", F=3, C=2, D=2, fixed=[1, 2, 1], ks=[2], schedule="last"),
            dict(history="reindex", F=3, C=2, D=2, fixed=[1, 2, 1], ks=[2], schedule="last"),
        ],
        "reach": ["edited", "reindexed"],
    },
    "pivot": {
        "run": run,
        "quick": [
            dict(F=3, C=1, D=3, fixed=[1, 1, 1], ks=[2], schedule="last"),
            dict(F=3, C=1, D=2, fixed=[1, 1, 1], ks=[1, 4], schedule="eager"),
            dict(F=3, C=2, D=2, fixed=[1, 2, 1], ks=[1], select=True, schedule="last"),
            dict(F=2, C=2, D=2, fixed=[1, 2], ks=[3], schedule="order"),
            dict(F=2, C=1, D=5, fixed=[1, 1], ks=[1], schedule="last"),
            dict(F=2, C=1, D=8, fixed=[1, 1], ks=[1], schedule="last", first=2),
            dict(sizes=[1, 2] * 5, free=[0, 4], ks=[2], schedule="last"),
            dict(sizes=[24], free=[3], ks=[20, 22], schedule="last"),
            dict(sizes=[1, 2] * 11, free=[0, 4], ks=[2], schedule="last"),
            dict(sizes=[1, 2] * 12, free=[0, 4], ks=[2], schedule="last", D=60, thin=list(range(1, 24, 3)) + [23]),
            dict(sizes=[2] * 64, free=[0, 125], ks=[1], schedule="last", thin=list(range(1, 64, 2))),
            dict(sizes=[55], free=[3], ks=[1, 20, 55, 60], schedule="last"),
            dict(sizes=[60, 1, 30], free=[3], ks=[3, 25], schedule="last", D=220),
        ],
        "thorough": [
            dict(F=4, C=1, D=3, fixed=[1, 1, 1, 1], ks=[k]) for k in (1, 2, 3)
        ]
        + [
            dict(F=4, C=2, D=3, fixed=[1, 2, 1, 1], ks=[2], schedule="last"),
            dict(F=3, C=1, D=4, fixed=[1, 1, 1], ks=[1], schedule="last"),
            dict(F=4, C=3, D=2, fixed=[1, 2, 3, 1], ks=[1, 2]),
        ],
        "reach": ["features", "truncated", "large"],
    }
}
