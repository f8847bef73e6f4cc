"""C10: contribution scores are the change in the objective; proposed moves are
the best scored ones."""
from engine import hr
from . import common as K
from . import models as M
from . import refine

BOUNDS = {
    "quick": "clusters of 1-4 features with 1-2 candidates over 2-4 documents, arbitrary document sets, arbitrary probe; "
    "proposed moves of 3 features into 3 clusters with arbitrary scores, 1-3 best ones kept, any completion order",
    "thorough": "clusters of up to 6 features with up to 2 candidates over up to 5 documents; 3 features into 4 clusters",
}
ASSUMPTIONS = ["An empty probe counts as no probe.", "Scores are compared as exact fractions (the code computes in doubles; replay compares to 1e-9)."]

FN = "measure_feature_contribution_to_cluster"


def parts(env, sets, D):
    """hits, covered documents and size of a family of document sets"""
    hits = env.count([b for s in sets for b in s])
    c = env.count([env.or_(*[s[d] for s in sets]) for d in range(D)])
    return hits, c, len(sets)


def objective(env, sets, D):
    hits, c, n = parts(env, sets, D)
    if not n:
        return 0
    return hits / (c + n) - hits / (hits + n)


def run_large(env, n, extra, probe):
    """larger clusters: the sets are settled but for three documents"""
    D = 40
    docs = []
    for i in range(n + extra):
        s = [(7 * i + j * (1 + i % 3)) % (D - 3) for j in range(1 + (5 * i) % 9)]
        docs.append(hr.BitMap(s) | env.bits("docs%d" % i, 3, base=D - 3) if i in (1, n) else hr.BitMap(s))
    q = None
    if probe:
        q = hr.BitMap(range(3, D - 5)) | env.bits("probe", 1, base=D - 1)
    run_scores(env, list(range(n)), list(range(n, n + extra)) + [0], D, probe, docs, q)


def run_scores(env, group, add, D, probe, docs=None, q=None):
    fn = getattr(hr.index, FN)
    F = len(set(group) | set(add))
    idx = K.new_index(env)
    K.add_docs(env, idx, ["k%d" % d for d in range(D)])
    fids = M.FIDS[:F] if F <= len(M.FIDS) else tuple(range(1, F + 1))
    bits = {f: env.bits("docs%d" % f, D) if docs is None else docs[i] for i, f in enumerate(fids)}
    K.add_features(env, idx, [(f, "text", env.vconst(i), bits[f]) for i, f in enumerate(fids)])
    group, add = {fids[i] for i in group}, {fids[i] for i in add}
    if probe and q is None:
        q = env.bits("probe", D)
        env.assume(env.or_(*[env.bit(q, d) for d in range(D)]))
    qc = q.copy() if q is not None else None
    env.schedule = "last"
    key, obj, own, own_d, new, new_d = K.pool().submit(fn, idx, 4, set(group), set(add), q).result()
    if q is not None:
        env.check(env.same(q, qc), "the probe is not modified")
    env.check(key == 4, "the scores are for the cluster asked for")
    own, own_d, new, new_d = list(own), list(own_d), list(new), list(new_d)
    env.check(sorted(own) == sorted(group), "every feature of the cluster gets exactly one score")
    if group:
        env.check(sorted(new) == sorted(add - group), "every requested feature gets exactly one score")
    env.check(len(own) == len(own_d) and len(new) == len(new_d), "one score for each feature")
    sets = {f: [env.and_(env.bit(bits[f], d), env.bit(q, d)) if probe else env.bit(bits[f], d) for d in range(D)] for f in fids}
    base = [sets[f] for f in sorted(group)]
    before = objective(env, base, D)
    if not group:
        before = 0
        env.reach("empty")
    env.check(env.eq(obj, before), "the objective is that of the cluster as given")
    env.reach("objective")

    def shares(f, others):
        return env.or_(*[env.and_(sets[f][d], env.or_(*[sets[g][d] for g in others])) for d in range(D)])

    for f, s in zip(own, own_d):
        rest = sorted(group - {f})
        covers = env.or_(*[sets[g][d] for g in rest for d in range(D)])
        delta = before - objective(env, [sets[g] for g in rest], D)
        want = env.or_(
            env.and_(env.not_(covers), env.eq(s, 0)),
            env.and_(covers, env.not_(shares(f, rest)), env.eq(s, -1)),
            env.and_(shares(f, rest), env.eq(s, delta)),
        )
        env.check(want, "score of a feature of the cluster")
        if rest:
            env.reach("own")
    for f, s in zip(new, new_d):
        if not group:
            continue
        delta = objective(env, base + [sets[f]], D) - before
        sh = shares(f, sorted(group))
        want = env.or_(env.and_(env.not_(sh), env.eq(s, -1)), env.and_(sh, env.eq(s, delta)))
        env.check(want, "score of a feature to add")
        env.reach("add")
    env.observe("objective", obj)
    env.observe("own", sorted(zip(own, own_d)))
    env.observe("new", sorted(zip(new, new_d)))


def run_moves(env, clusters, check, top, sched="last", probe=False):
    """the best scoring clusters of each feature"""
    arr = hr.index.array.array
    fn = getattr(hr.index, FN)
    if not refine.five_arguments(fn) or not refine.real_shape(env, fn):
        raise AttributeError("scoring function is called differently")
    idx = K.new_index(env)
    scores, asked = {}, []
    q = env.bits("probe", 1) if probe else None

    def stub(*args, **kwargs):
        _, group_key, feature_group, add_features, probe_query = refine.arguments(fn, args, kwargs)
        asked.append((group_key, sorted(feature_group), sorted(add_features), probe_query is None))
        if not feature_group:
            return (group_key, 0, arr("q"), arr("d"), arr("q"), arr("d"))
        own, add = sorted(feature_group), sorted(set(add_features) - set(feature_group))
        for f in own + add:
            if (group_key, f) not in scores:
                scores[group_key, f] = env.real("score %s %s" % (group_key, f), -1, 2)
        if ("o", group_key) not in scores:
            scores["o", group_key] = env.real("objective %s" % group_key, 0, 2)
        return (
            group_key, scores["o", group_key],
            arr("q", own), arr("d", [scores[group_key, f] for f in own]),
            arr("q", add), arr("d", [scores[group_key, f] for f in add]),
        )

    env.havoc[FN] = stub
    env.schedule = sched
    clusters = {c: set(f) for c, f in clusters}
    check = {c: set(f) for c, f in check}
    given = ({c: set(f) for c, f in clusters.items()}, {c: set(f) for c, f in check.items()})
    objectives, best = idx._score_proposed_moves(clusters, check, probe_query=q, top_k=top)
    env.check((clusters, check) == given, "the given clusters are not modified")
    env.check(sorted(set(a[0] for a in asked)) == sorted(check), "every cluster to check is scored")
    for c, own, add, none in asked:
        env.check(own == sorted(clusters[c]), "clusters are scored with their own features")
        env.check(add == sorted(check[c] - clusters[c]), "exactly the features to check are scored")
        env.check(none == (not probe), "the probe is used for scoring")
    env.check(sorted(objectives) == sorted(check), "every checked cluster has an objective")
    for c in check:
        if clusters[c] and c in objectives:
            env.check(env.eq(objectives[c], scores["o", c]), "objectives are those of the clusters")
    by = {}
    for c, f in scores:
        if c != "o":
            by.setdefault(f, []).append(c)
    env.check(sorted(best) == sorted(by), "every scored feature has proposed moves")
    for f, cs in by.items():
        got = best.get(f, [])
        kept = [c for _, c in got]
        env.check(len(got) == min(top, len(cs)), "as many proposed moves as asked for")
        env.check(len(set(kept)) == len(kept) and set(kept) <= set(cs), "proposed moves are distinct scored clusters")
        for s, c in got:
            if (c, f) in scores:
                env.check(env.eq(s, scores[c, f]), "a proposed move has its score")
        for (a, _), (b, _) in zip(got, got[1:]):
            env.check(env.le(b, a), "proposed moves are sorted, best first")
        for c in cs:
            if c not in kept and got:
                env.check(env.and_(*[env.le(scores[c, f], s) for s, _ in got]), "no better move is left out")
                env.reach("left out")
        env.reach("moves")


SCORES = [
    dict(group=[0], add=[1, 2], D=4, probe=False),
    dict(group=[0, 1], add=[2], D=4, probe=False),
    dict(group=[0, 1], add=[1, 2, 3], D=3, probe=False),
    dict(group=[0, 1, 2], add=[3], D=3, probe=False),
    dict(group=[0, 1, 2, 3], add=[], D=3, probe=False),
    dict(group=[0, 1, 2, 3], add=[4], D=2, probe=False),
    dict(group=[0, 1], add=[2], D=3, probe=True),
    dict(group=[0, 1, 2], add=[3], D=2, probe=True),
    dict(group=[], add=[0], D=1, probe=False),
]
MOVES = [
    dict(clusters=[(0, [1]), (3, [2])], check=[(0, [1, 2]), (3, [1, 2])], top=1, sched="order"),
    dict(clusters=[(0, [1]), (3, [2]), (4, [5])], check=[(0, [1]), (3, [1]), (4, [1])], top=2, probe=True),
    dict(clusters=[(0, [1]), (3, [2]), (4, [])], check=[(0, [2]), (3, [1]), (4, [1, 2])], top=3),
] + [
    dict(clusters=[(0, [1]), (3, [2]), (4, [5])], check=[(0, [1, 2, 5]), (3, [1, 2]), (4, [1, 2])], top=t, sched="order") for t in (1, 2)
]
SCENARIOS = {
    "scores": {
        "run": run_scores,
        "quick": SCORES,
        "thorough": SCORES
        + [
            dict(group=[0, 1, 2, 3, 4], add=[5], D=3, probe=False),
            dict(group=[0, 1, 2, 3, 4, 5], add=[6], D=2, probe=False),
            dict(group=[0, 1], add=[2], D=5, probe=False),
            dict(group=[0, 1, 2], add=[3], D=4, probe=False),
            dict(group=[0, 1, 2], add=[3, 4], D=3, probe=True),
        ],
        "reach": ["objective", "own", "add", "empty"],
    },
    "large": {
        "run": run_large,
        "quick": [dict(n=12, extra=3, probe=False), dict(n=25, extra=1, probe=True)],
        "thorough": [dict(n=n, extra=e, probe=p) for n in (12, 40, 70) for e in (1, 9) for p in (False, True)],
        "reach": ["objective", "own", "add"],
    },
    "moves": {
        "run": run_moves,
        "quick": MOVES,
        "thorough": MOVES
        + [
            dict(clusters=[(0, [1]), (3, [2]), (4, [5]), (5, [6, 7])], check=[(0, [1, 2]), (3, [1, 2]), (4, [1, 2]), (5, [2, 5])], top=t, sched="order")
            for t in (1, 2, 3)
        ],
        "reach": ["moves", "left out"],
    },
}
