"""C15: samples are genuine samples of the requested size."""
import itertools

from engine import hr
from . import common as K
from . import models as M

BOUNDS = {
    "quick": "every set of up to 5 documents and every requested size; structured samples over every family of 2-3 clusters of 1-2 "
    "features and 3-4 documents, every selection (also unknown clusters), sizes 0-2, every random draw; 40 documents, 12 clusters (the first draw arbitrary); also with an index object used before its documents or its model changed",
    "thorough": "up to 6 documents, 4 clusters",
}


def size(env, bm, D):
    return env.count([env.bit(bm, d) for d in range(D)])


def run_bitmap(env, D):
    idx = K.new_index(env)
    bm = env.bits("docs", D)
    before = bm.copy()
    n = env.pick("size", D + 2)
    s = idx.sample_bitmap(bm, n)
    env.check(env.same(bm, before), "the original is not modified")
    env.check(env.and_(*[env.implies(env.bit(s, d), env.bit(before, d)) for d in range(D)]), "a sample is a subset")
    env.check(all(d in range(D) for d in K.sorted_positions(env, s)), "a sample is a subset")
    b = size(env, before, D)
    env.check(env.eq(size(env, s, D), env.ite(b < n, b, n)), "min(requested, available) members")
    env.observe("sample", s.copy())
    s.add(D + 7)
    s.discard(0)
    env.check(env.same(bm, before), "changing the sample does not change the original")
    env.reach("sampled")


def run_structured(env, F, C, D, sizes, fixed, select):
    idx, fids, bits, assign, pins, cpins = M.state(env, F, C, D, fixed=fixed)
    n = sizes[env.pick("size", len(sizes))]
    clusters = sorted(set(assign.values()))
    docs = {c: K.union(env, [bits[f] for f in assign if assign[f] == c]) for c in clusters}
    chosen = list(clusters)
    arg = None
    if select:
        arg = [c for c in clusters + [77] if env.pick("use %d" % c, 2)]
        if arg:
            chosen = [c for c in arg if c in clusters]
    samples, where = idx.structured_doc_sample(n, arg)
    env.check(sorted(samples) == sorted(chosen), "exactly the selected clusters are sampled")
    if sorted(samples) != sorted(chosen):
        return
    sizes_ = {c: size(env, samples[c], D) for c in chosen}
    for c in chosen:
        env.check(
            env.and_(*[env.implies(env.bit(samples[c], d), env.bit(docs[c], d)) for d in range(D)]),
            "only documents of the cluster are sampled from it",
        )
        env.check(all(d in range(D) for d in K.sorted_positions(env, samples[c])), "only known documents")
        for e in chosen:
            if e > c:
                env.check(
                    env.and_(*[env.not_(env.and_(env.bit(samples[c], d), env.bit(samples[e], d))) for d in range(D)]),
                    "no document is sampled twice",
                )
    # some order of the clusters from least to most frequent explains the sizes
    orders = []
    for p in itertools.permutations(chosen):
        terms = [size(env, docs[a], D) <= size(env, docs[b], D) for a, b in zip(p, p[1:])]
        for i, c in enumerate(p):
            left = env.count(
                [
                    env.and_(env.bit(docs[c], d), env.not_(env.or_(*[env.bit(samples[e], d) for e in p[:i]])))
                    for d in range(D)
                ]
            )
            want = left if n == 0 else env.ite(left < n, left, n)
            terms.append(env.eq(sizes_[c], want))
        orders.append(env.and_(*terms))
    env.check(env.or_(*orders), "sizes follow from processing clusters from least to most frequent")
    allsampled = K.union(env, [samples[c] for c in chosen])
    for c in clusters:
        want = env.mkbits([env.and_(env.bit(docs[c], d), env.bit(allsampled, d)) for d in range(D)])
        if c in where:
            env.check(env.same(where[c], want), "the companion map lists the sampled documents of every cluster")
        else:
            env.check(env.eq(size(env, want, D), 0), "clusters left out of the map have no sampled documents")
    env.check(all(c in clusters for c in where), "only clusters of the model are in the map")
    if chosen:
        env.reach("sampled")
    env.observe("sizes", [sorted((c, sizes_[c]) for c in chosen)])


class Draws:
    """the first n draws are free, later ones take the first choice"""

    def __init__(self, env, n):
        self.env, self.n = env, n

    def __call__(self, k, rng=None):
        if k is None or self.n <= 0:
            return 0.25 if k is None else 0
        self.n -= 1
        return self.env.pick("draw", k)


def run_large(env, D, sizes):
    """of many documents, two may or may not be there"""
    idx = K.new_index(env)
    bm = hr.BitMap(range(2, D)) | env.bits("docs", 2)
    before = bm.copy()
    n = sizes[env.pick("size", len(sizes))]
    env.draws = Draws(env, 1)
    s = idx.sample_bitmap(bm, n)
    env.check(env.same(bm, before), "the original is not modified")
    env.check(env.and_(*[env.implies(env.bit(s, d), env.bit(before, d)) for d in range(D)]), "a sample is a subset")
    env.check(all(d in range(D) for d in K.sorted_positions(env, s)), "a sample is a subset")
    b = size(env, before, D)
    env.check(env.eq(size(env, s, D), env.ite(b < n, b, n)), "min(requested, available) members")
    env.reach("sampled")


def run_many(env, sizes, n, select):
    """many clusters, of different numbers of documents"""
    D = 40
    C = len(sizes)
    env.cids = tuple(3 * i for i in range(C))
    idx = K.new_index(env)
    K.add_docs(env, idx, ["k%02d" % d for d in range(D)])
    fids = [i + 1 for i in range(C)]
    bits = {f: hr.BitMap([(5 * i + d) % D for d in range(k)]) for i, (f, k) in enumerate(zip(fids, sizes))}
    K.add_features(env, idx, [(f, "text", env.vconst(i), bits[f]) for i, f in enumerate(fids)])
    assign = {f: env.cids[i] for i, f in enumerate(fids)}
    K.set_model(env, idx, assign, bits, {}, {})
    env.draws = Draws(env, 1)
    n = n[env.pick("size", len(n))]
    order = sorted(range(C), key=lambda i: sizes[i])
    arg = None
    if select:
        k = env.pick("first selected", 2)
        arg = [env.cids[i] for i in range(k, C)][::-1]
        order = [i for i in order if i >= k]
    samples, where = idx.structured_doc_sample(n, arg)
    env.check(sorted(samples) == sorted(env.cids[i] for i in order), "exactly the selected clusters are sampled")
    taken = set()
    for i in order:
        have = set(samples.get(env.cids[i], ()))
        left = set(bits[fids[i]]) - taken
        env.check(have <= left, "only documents of the cluster, none sampled before")
        env.check(len(have) == (min(n, len(left)) if n else len(left)), "sizes follow from processing clusters from least to most frequent")
        taken |= have
    for i in range(C):
        want = set(bits[fids[i]]) & taken
        env.check(set(where.get(env.cids[i], ())) == want, "the companion map lists the sampled documents of every cluster")
    env.check(all(c in env.cids for c in where), "only clusters of the model are in the map")
    env.reach("sampled")


SCENARIOS = {
    "history": {
        "run": M.aged(run_structured),
        "quick": [dict(history=h, F=3, C=2, D=2, sizes=[0, 1], fixed=[1, 2, 1], select=False) for h in ("edit", "reindex")]
        + [dict(history="edit", F=3, C=2, D=1, sizes=[0], fixed=[1, 1, 0], select=False)],
        "thorough": [dict(history=h, F=3, C=2, D=3, sizes=[0, 1, 2], fixed=[1, 2, 1], select=True) for h in ("edit", "reindex")],
        "reach": ["edited", "reindexed"],
    },
    "large": {
        "run": run_large,
        "quick": [dict(D=30, sizes=[1, 10, 29, 31, 100])],
        "thorough": [dict(D=200, sizes=[1, 10, 100, 198, 199, 200, 201, 1000])],
        "reach": ["sampled"],
    },
    "many": {
        "run": run_many,
        "quick": [dict(sizes=[(7 * i) % 12 + 1 for i in range(12)], n=[0, 2, 5, 12, 100], select=True)],
        "thorough": [dict(sizes=[(7 * i) % 25 + 1 for i in range(25)], n=[0, 1, 4, 12, 30], select=x) for x in (True, False)],
        "reach": ["sampled"],
    },
    "bitmap": {
        "run": run_bitmap,
        "quick": [dict(D=4)],
        "thorough": [dict(D=5)],
        "reach": ["sampled"],
    },
    "structured": {
        "run": run_structured,
        "quick": [
            dict(F=2, C=2, D=3, sizes=[0, 1, 2], fixed=[1, 2], select=True),
            dict(F=3, C=2, D=2, sizes=[1], fixed=[1, 2, 1], select=False),
            dict(F=3, C=3, D=2, sizes=[0, 1], fixed=[2, 1, 3], select=False),
        ],
        "thorough": [
            dict(F=2, C=2, D=4, sizes=[1, 2], fixed=[1, 2], select=False),
            dict(F=3, C=3, D=3, sizes=[0, 1, 2], fixed=[1, 2, 3], select=False),
            dict(F=3, C=3, D=2, sizes=[0, 1, 2], fixed=[1, 2, 3], select=True),
            dict(F=4, C=3, D=2, sizes=[0, 1], fixed=[1, 2, 3, 1], select=False),
        ],
        "reach": ["sampled"],
    },
}
