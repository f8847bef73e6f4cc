"""C27: results do not depend on background scheduling."""
from engine import hr
from . import common as K
from . import models as M
from . import positions as P
from . import refine as R

BOUNDS = {
    "quick": "the same calls on two equal indexes, the background tasks of one completing in the order they were submitted, those of "
    "the other in any order (the first 2-4 completions of a call arbitrary, then last first; up to 4 tasks at a time) and started at "
    "once or when needed; the random numbers of both the same arbitrary sequence (first 2-3 numbers arbitrary); models of 3-4 "
    "features in 2-3 clusters; passages and collocations over up to 5 tokens in 2-3 batches of one or two fields; 20-26 features, 12-13 clusters and 13 batches, mostly settled",
    "thorough": "more shapes of models, targets and group testing, up to 6 tokens, the first 6 completions arbitrary",
}
ASSUMPTIONS = [
    "A random generator is a function of its seed and of the requests made of it so far; without a seed it gives any numbers.",
    "In refinement, similarity scores are arbitrary numbers (the scoring function is decided by C10).",
]


class Draws:
    """arbitrary streams of random numbers: generators with the same seed that
    are asked for the same in the same order give the same numbers; those of a
    generator without a seed are different every time"""

    def __init__(self, env, n, m):
        self.env, self.n, self.m = env, n, m
        self.memo = {}
        self.round = 0

    def start(self):
        self.round += 1
        # numbers without a seed: the first two are arbitrary
        self.loose = 2

    def __call__(self, k, rng):
        rng.asked += (k,)
        if rng.seed_value is None:
            self.loose -= 1
            if self.loose < 0:
                return 0.25 if k is None else 0
            return 0.75 * self.env.pick("any half", 2) if k is None else self.env.pick("any draw", k)
        asked = (rng.seed_value,) + rng.asked
        if asked not in self.memo:
            self.memo[asked] = self.new(k)
        return self.memo[asked]

    def new(self, k):
        if k is None:
            if self.m <= 0:
                return 0.25
            self.m -= 1
            return 0.25 if self.env.pick("below a half", 2) == 0 else 0.75
        if self.n <= 0:
            return 0
        self.n -= 1
        return self.env.pick("draw", k)


class Order:
    """any order of completion: the first n are free, then last first"""

    def __init__(self, env, n):
        self.env, self.n = env, n

    def __call__(self, k):
        if self.n <= 0:
            return k - 1
        self.n -= 1
        return self.env.pick("completes", k)


def both(env, make, act, draws, free, eager=False):
    """runs act twice and compares"""
    d = Draws(env, *draws)
    env.draws = d
    out = []
    for side in range(2):
        env.schedule = "fixed"
        args = make()
        d.start()
        env.flip = side == 1
        if side:
            env.schedule = "eager" if eager else Order(env, free)
        try:
            out.append((None, act(*args)))
        except Exception as e:
            if env.stale(e):
                raise
            out.append((type(e).__name__, None))
        env.flip = False
    (e1, r1), (e2, r2) = out
    env.check(e1 == e2, "the same calls succeed or fail alike")
    if e1 is None and e2 is None:
        env.check(env.same(r1, r2), "the same results in every order of completion")
        env.reach("compared")
        env.observe("results", [r1, r2])
    return out


def plain(env, idx):
    fc, cl = K.read_model(K.reader(env, idx))
    return [[(f,) + tuple(r) for f, r in sorted(fc.items())], [(c,) + tuple(r) for c, r in sorted(cl.items())]]


def source(env, F, D, fields=None):
    """one content, built as often as needed"""
    if F <= len(M.FIDS):
        fids = M.FIDS[:F]
        bits = {f: env.bits("docs%d" % f, D) for f in fids}
    else:
        # two of the documents may or may not have two of the features
        fids = tuple(range(1, F + 1))
        bits = {f: hr.BitMap([(3 * f + j) % (D - 2) for j in range(2 + (7 * f) % 6)]) for f in fids}
        for f in (1, 5):
            bits[f] = bits[f] | env.bits("docs%d" % f, 2, base=D - 2)
    vals = [env.vconst(i) for i in range(F)]

    def make():
        idx = K.new_index(env, corpus=K.Stub([("k%d" % d, {"body": "b%d" % d}) for d in range(D)]), seed=7)
        K.add_docs(env, idx, ["k%d" % d for d in range(D)])
        K.add_features(env, idx, [(f, (fields or ["text"] * F)[i], vals[i], bits[f].copy()) for i, f in enumerate(fids)])
        return idx

    return make, fids, bits


def run_refine(env, assign, free, draws=(1, 2), D=1, pins=(), cpins=(), target=None, select=None, group=0, top=1, iterations=1, minimum=1, eager=False, tolerance=0.05, settled=False):
    make0, fids, bits = source(env, len(assign), D)
    cids = M.CIDS if max(assign) <= len(M.CIDS) else tuple(range(max(assign)))
    model = {f: cids[c - 1] for f, c in zip(fids, assign) if c}
    clusters = sorted(set(model.values()))
    R.score_stub(env, settled)

    def make():
        idx = make0()
        K.set_model(
            env, idx, model, bits, {f: i in pins for i, f in enumerate(fids)}, {c: i in cpins for i, c in enumerate(clusters)}
        )
        return (idx,)

    def act(idx):
        idx.refine_clusters(
            iterations=iterations, cluster_ids=[clusters[i] for i in select] if select else None, minimum_cluster_features=minimum,
            target_clusters=target, tolerance=tolerance, group_test_batches=group, group_test_top_k=top,
        )
        return plain(env, idx)

    (_, a), _ = both(env, make, act, draws, free, eager)
    if a and any(r[1] != model[r[0]] for r in a[0]):
        env.reach("moved")


def run_real(env, assign, D, free, draws):
    """refinement with its real scores, then sampling with the same generator"""
    make0, fids, bits = source(env, len(assign), D)
    model = {f: M.CIDS[c - 1] for f, c in zip(fids, assign) if c}

    def make():
        idx = make0()
        K.set_model(env, idx, model, bits, {}, {})
        return (idx,)

    def act(idx):
        idx.refine_clusters(iterations=1)
        a = plain(env, idx)
        return a, list(idx.structured_doc_sample(1))

    both(env, make, act, draws, free)


def run_initialise(env, F, D, n, free, draws, fields=None, include=None):
    make0, fids, bits = source(env, F, D, fields)

    def act(idx):
        idx.initialise_clusters(n, min_docs=1, include_fields=include)
        a = plain(env, idx)
        samples, where = idx.structured_doc_sample(1)
        return a, samples, where, idx.sample_bitmap(hr.BitMap(range(D)), 1)

    both(env, lambda: (make0(),), act, draws, free)


def run_passages(env, layout, values, clauses, window, free, second=0, sample=None, draws=(0, 0), batch=1, open=None):
    # the tokens are the same for both: inputs are named once
    toks = {}
    real_int = env.int

    def once(n, lo, hi):
        if n not in toks:
            toks[n] = real_int(n, lo, hi)
        return toks[n]

    env.int = once

    def make():
        r = P.build(env, layout, values, extra=("title", second) if second else None, free=open)
        idx, fids, docs = r[:3]
        keys = ["k%d" % i for i in range(len(docs))]
        stub = []
        for k, (d, t) in zip(keys, docs):
            doc = {"text": ["w%d_%d" % (d, i) for i in range(len(t))]}
            if second:
                doc["title"] = ["x%d_%d" % (d, i) for i in range(len(t))]
            stub.append((k, doc))
        idx.corpus = K.Stub(stub)
        x = r[3] if second else []
        query = [[(x[v - 100] if v >= 100 else fids[v]) for v in c] for c in clauses]
        return idx, query

    def act(idx, query):
        got = idx.score_passages_dnf(query, window)
        out = [[d, [tuple(p) for p in ps]] for d, ps in sorted(got.items())]
        if sample is None:
            return out
        rows = list(idx.render_passages_table(got, passage_overhang=1, batch_size=batch, random_sample_size=sample))
        env.reach("rendered")
        return out, sorted([d, k, sorted((f, list(v)) for f, v in p.items())] for d, k, p in rows)

    (_, a), _ = both(env, make, act, draws, free)
    if a and (a[0] if sample else a):
        env.reach("found")


def run_colloc(env, layout, values, query, window, free, second=0, open=None):
    toks = {}
    real_int = env.int

    def once(n, lo, hi):
        if n not in toks:
            toks[n] = real_int(n, lo, hi)
        return toks[n]

    env.int = once

    def make():
        r = P.build(env, layout, values, extra=("title", second) if second else None, free=open)
        return r[0], [r[1][v] for v in query]

    def act(idx, features):
        counts, nq, nw = idx.count_collocations("text", features, window)
        return sorted((k, tuple(v)) for k, v in counts.items()), nq, nw

    both(env, make, act, (0, 0), free)


def run_workers(env, F, C, D, op, free):
    """what workers report is about the model the caller sees"""
    idx, fids, bits, assign, pins, cpins = M.state(env, F, C, D, fixed=[1 + i % C for i in range(F)])
    clusters = sorted(set(assign.values()))
    query = env.bits("query", D)
    env.schedule = "last"
    list(idx.pivot_clusters_by_query(query))  # workers have been used before
    if op == "merge":
        idx.merge_clusters(clusters[:2])
    elif op == "create":
        idx.create_cluster_from_features([fids[0]])
    elif op == "delete":
        idx.delete_clusters([clusters[0]])
    elif op == "delete features":
        idx.delete_features([fids[0]])
    elif op == "initialise":
        env.draws = "first"
        idx.initialise_clusters(C + 1)
    env.schedule = Order(env, free)
    out = list(idx.pivot_clusters_by_query(query, top_k=F))
    graph = idx.create_cluster_cooccurrence_graph(top_k=1)
    fc, _ = K.read_model(K.reader(env, idx))
    now = {}
    for f, r in fc.items():
        now.setdefault(r[0], []).append(f)
    docs = {c: K.union(env, [bits[f] for f in fs]) for c, fs in now.items()}
    env.check(sorted(graph.nodes) == sorted(now), "the graph shows the clusters of the model")
    seen = {}
    for c, sim, feats in out:
        seen[c] = [r[0] for r in feats]
    for c, fs in now.items():
        meet = env.or_(*[env.and_(env.bit(docs[c], d), env.bit(query, d)) for d in range(D)])
        env.check(env.iff(c in seen, meet), "workers see the clusters of the model")
        for f in fs:
            has = env.or_(*[env.and_(env.bit(bits[f], d), env.bit(query, d)) for d in range(D)])
            env.check(env.iff(f in seen.get(c, ()), has), "workers see the members of the clusters")
        for e in now:
            if e > c:
                both_ = env.or_(*[env.and_(env.bit(docs[c], d), env.bit(docs[e], d)) for d in range(D)])
                env.check(env.iff(graph.has_edge(c, e), both_), "workers see the documents of the clusters")
    env.check(all(c in now for c in seen), "workers see no cluster that is gone")
    env.reach("seen")
    env.observe("seen", sorted((c, sorted(f)) for c, f in seen.items()))


SCENARIOS = {
    "refine": {
        "run": run_refine,
        "quick": [
            dict(assign=[1, 1, 2], free=3, draws=(1, 1)),
            dict(assign=[1, 2, 3], free=3, draws=(1, 1), pins=[2]),
            dict(assign=[1, 1, 2], free=1, draws=(0, 0), target=3),
            dict(assign=[1, 2, 3], free=2, draws=(0, 0), target=2, pins=[0, 1]),
            dict(assign=[1, 2, 3], free=3, draws=(1, 0), group=1, pins=[2]),
            dict(assign=[1, 1, 2], free=2, draws=(0, 0), iterations=2, tolerance=0, pins=[0], eager=True),
            dict(assign=[1 + i % 13 for i in range(26)], free=0, draws=(0, 1), D=12, group=None, settled="mixed", pins=[1], target=11),
            dict(assign=[1 + i % 12 for i in range(20)], free=0, draws=(0, 1), D=12, settled="mixed", target=14, eager=True),
        ],
        "thorough": [
            dict(assign=a, free=6, draws=(2, 2), target=t, group=g, D=D)
            for a in ([1, 1, 2], [1, 2, 3], [1, 1, 2, 2], [1, 2, 2, 3])
            for t in (None, 2, 4)
            for g in (0, 2)
            for D in (1,)
        ]
        + [dict(assign=[1, 1, 2], free=4, draws=(2, 2), iterations=3, tolerance=0)],
        "reach": ["compared", "moved"],
    },
    "real scores": {
        "run": run_real,
        "quick": [dict(assign=[1, 2], D=2, free=2, draws=(1, 1))],
        "thorough": [dict(assign=[1, 1, 2], D=2, free=4, draws=(2, 2)), dict(assign=[1, 2, 3], D=2, free=4, draws=(2, 2))],
        "reach": ["compared"],
    },
    "initialise": {
        "run": run_initialise,
        "quick": [
            dict(F=4, D=1, n=2, free=2, draws=(3, 0)),
            dict(F=3, D=2, n=3, free=3, draws=(2, 0), fields=["text", "tag", "text"], include=["tag", "text"]),
            dict(F=20, D=12, n=7, free=0, draws=(1, 0)),
        ],
        "thorough": [
            dict(F=f, D=d, n=n, free=6, draws=(5, 0)) for f, d in ((4, 2), (5, 1)) for n in (2, 3, 4)
        ],
        "reach": ["compared"],
    },
    "passages": {
        "run": run_passages,
        "quick": [
            dict(layout=[[2], [2]], values=1, clauses=[[0]], window=1, free=4, sample=1, draws=(0, 2)),
            dict(layout=[[2], [1]], values=1, clauses=[[0, 100]], window=1, free=4, second=1),
            dict(layout=[[1], [1], [1]], values=1, clauses=[[0]], window=1, free=4, sample=2, draws=(0, 3), batch=1),
            dict(layout=[[2, 1], [2]], values=2, clauses=[[0], [1]], window=1, free=4),
            dict(layout=[[5]] * 13, values=2, clauses=[[0], [1]], window=4, free=1, sample=5, draws=(0, 1), open=[[3, 2]]),
            dict(layout=[[9, 4], [12], [3, 3, 3]], values=2, clauses=[[0, 100], [1]], window=4, free=2, second=2, sample=20, draws=(0, 1), batch=2, open=[[2, 0]]),
        ],
        "thorough": [
            dict(layout=l, values=1, clauses=[[0, 100]], window=1, free=6, second=2, sample=s, draws=(0, 3), batch=b)
            for l in ([[2], [2]], [[1, 1], [1]], [[1], [1], [1]])
            for s in (None, 1, 2)
            for b in (1, 2)
        ],
        "reach": ["compared", "found", "rendered"],
    },
    "collocations": {
        "run": run_colloc,
        "quick": [dict(layout=[[2], [2]], values=2, query=[0], window=1, free=4), dict(layout=[[1], [1], [2]], values=1, query=[0], window=1, free=4, second=1),
                  dict(layout=[[7]] * 13, values=6, query=[0, 3], window=3, free=1, open=[[3, 2]])],
        "thorough": [
            dict(layout=l, values=2, query=q, window=w, free=6)
            for l in ([[3], [2]], [[2], [2], [2]])
            for q in ([0], [0, 1])
            for w in (1, 2)
        ],
        "reach": ["compared"],
    },
    "workers": {
        "run": run_workers,
        "quick": [
            dict(F=3, C=2, D=2, op=op, free=1)
            for op in ("none", "merge", "create", "delete", "delete features", "initialise")
        ],
        "thorough": [
            dict(F=4, C=3, D=2, op=op, free=4)
            for op in ("none", "merge", "create", "delete", "delete features", "initialise")
        ],
        "reach": ["seen"],
    },
}
