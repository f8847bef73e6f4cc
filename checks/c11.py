"""C11: bit-sliced counting and top-k selection are exact."""
from engine import hr
from . import models

BOUNDS = {
    "quick": "up to 5 document sets over 3 documents (or 9 over 1; 40 or 130 of which 3 are arbitrary over 2-4); every k from 0 to documents+1; features and clusters of an index of up to 44 features",
    "thorough": "up to 7 document sets over 3 documents, 5 over 4, 17 over 1",
}


def spec_counts(env, bms, docs):
    return [env.count([env.bit(b, d) for b in bms]) for d in range(docs)]


def some_sets(env, sets, docs):
    """document sets; of more than 17, all but three are settled"""
    if sets <= 17:
        return [env.bits("set%d" % i, docs) for i in range(sets)]
    return [
        env.bits("set%d" % i, docs)
        if i in (0, sets // 2, sets - 1)
        # the first document is in nearly all of them, the others in half or less
        else hr.BitMap([d for d in range(docs) if (i * 5 + d * 7) % (d + 2) == 0 or d == 0])
        for i in range(sets)
    ]


def bitslice(env, sets, docs):
    bms = some_sets(env, sets, docs)
    orig = [b.copy() for b in bms]
    counts = spec_counts(env, bms, docs)
    matching, bs = hr.utilities.compute_bitslice(bms)
    for a, b in zip(orig, bms):
        env.check(env.same(a, b), "the given sets are not modified")
    env.reach("computed")
    if len(bs) > 2:
        env.reach("three slices")
    for d in range(docs):
        env.check(env.iff(env.bit(matching, d), counts[d] > 0), "matching documents are those in some set")
        total = 0
        for i, s in enumerate(bs):
            total = total + env.ite(env.bit(s, d), 2**i, 0)
        env.check(env.eq(total, counts[d]), "bit slices record the number of sets of each document")
    env.observe("n", len(bs))
    env.observe("matching", matching)
    return matching, bs, counts


def run_bitslice(env, sets, docs):
    matching, bs, counts = bitslice(env, sets, docs)
    seen = list(hr.utilities.weight_bitslice(bs))
    env.check([d for d, _ in seen] == sorted(set(d for d, _ in seen)), "weights are reported once, in order")
    got = dict(seen)
    for d in range(docs):
        if d in got:
            env.check(env.eq(got[d], counts[d]), "reported weight is the number of sets")
        else:
            env.check(env.eq(counts[d], 0), "documents without a weight are in no set")
    env.observe("weights", seen)


def check_topk(env, matching, res, counts, docs, k):
    n = len(res)
    res_k = env.not_(env.count([env.bit(res, d) for d in range(docs)]) > k)
    want = env.count([env.bit(matching, d) for d in range(docs)])
    env.check(env.and_(*[env.implies(env.bit(res, d), env.bit(matching, d)) for d in range(docs)]), "top k is a subset")
    size = env.count([env.bit(res, d) for d in range(docs)])
    env.check(env.or_(size >= k, env.eq(size, want)), "at least min(k, matches) documents")
    for d in range(docs):
        for e in range(docs):
            if d == e:
                continue
            env.check(
                env.implies(
                    env.and_(env.bit(res, d), env.bit(matching, e), env.not_(env.bit(res, e))), counts[d] >= counts[e]
                ),
                "every returned document counts at least as much as every document left out",
            )
    if k > 0:
        # dropping everything tied at the lowest count leaves fewer than k
        for d in range(docs):
            above = env.count([env.and_(env.bit(res, e), counts[e] > counts[d]) for e in range(docs)])
            env.check(
                env.implies(env.and_(size > k, env.bit(res, d)), above < k),
                "more than k documents only for ties at the lowest count",
            )
            env.reach("tie") if env.is_possible(env.and_(size > k)) else None
    env.observe("top", res)


def run_topk(env, sets, docs, ks):
    bms = some_sets(env, sets, docs)
    k = ks[env.pick("k", len(ks))]
    counts = spec_counts(env, bms, docs)
    matching, bs = hr.utilities.compute_bitslice(bms)
    before = matching.copy()
    bs_before = [b.copy() for b in bs]
    res = hr.utilities.bstm(matching, bs, k)
    env.check(env.same(before, matching), "selection leaves the matching set alone")
    env.check(env.same(bs_before, bs), "selection leaves the bit slices alone")
    check_topk(env, matching, res, counts, docs, k)


def run_index(env, sizes, free, n):
    """the accumulation over features of an index, and over a cluster"""
    idx, fids, bits, assign, pins, cpins = models.large_state(env, sizes, free)
    big = env.cids[0]
    members = [f for f in fids if assign[f] == big]
    by = {r[0]: (r[1], r[2]) for r in idx.db.execute("select feature_id, field, value from inverted_index")}
    asked = [
        ("cluster", members, lambda: idx.cluster_query(big)),
        ("ids", fids[:n], lambda: idx.union_bitslice(fids[:n])),
        ("repeated", fids[:2] + fids[:n] + fids[:1], lambda: idx.union_bitslice(fids[:2] + fids[:n] + fids[:1])),
        ("values", fids[-n:], lambda: idx.union_bitslice([by[f] for f in fids[-n:]])),
    ]
    for label, fs, call in asked:
        matching, bs = call()
        counts = spec_counts(env, [bits[f] for f in fs], 20)
        for d in range(20):
            env.check(env.iff(env.bit(matching, d), counts[d] > 0), label + ": matching documents are those with some feature")
            total = 0
            for i, s in enumerate(bs):
                total = total + env.ite(env.bit(s, d), 2**i, 0)
            env.check(env.eq(total, counts[d]), label + ": bit slices record the number of features of each document")
        env.observe(label, matching)
    env.reach("accumulated")


SCENARIOS = {
    "index": {
        "run": run_index,
        "quick": [dict(sizes=(40, 1, 3), free=(0,), n=35), dict(sizes=(2, 2, 30), free=(1, 5), n=3)],
        "thorough": [dict(sizes=(140, 1, 3), free=(0, 3), n=120), dict(sizes=(2, 2, 130), free=(1, 5), n=20)],
        "reach": ["accumulated"],
    },
    "bitslice": {
        "run": run_bitslice,
        "quick": [dict(sets=s, docs=d) for s, d in ((0, 1), (1, 2), (2, 3), (3, 3), (4, 2), (5, 2), (9, 1), (40, 3), (130, 2))],
        "thorough": [dict(sets=s, docs=d) for s, d in ((4, 3), (5, 3), (5, 4), (7, 2), (7, 3), (17, 1), (40, 9), (300, 3))],
        "reach": ["computed", "three slices"],
    },
    "topk": {
        "run": run_topk,
        "quick": [dict(sets=s, docs=d, ks=k) for s, d, k in ((1, 3, [0, 1, 2, 4]), (3, 3, [1, 2, 3]), (4, 3, [1, 2]), (40, 4, [1, 3]), (130, 3, [1, 2]))],
        "thorough": [dict(sets=s, docs=d, ks=k) for s, d, k in ((4, 4, [1, 2, 3]), (5, 3, [1, 2, 3]), (3, 5, [1, 2, 3, 4]), (70, 6, [1, 2, 4]))],
        "reach": ["tie"],
    },
}
