"""Automatic refinement from every model, with arbitrary similarity scores
(C05, C08, C09, C27)."""
import inspect
import os

from engine import hr
from . import common as K
from . import models as M


ARGUMENTS = ["idx", "group_key", "feature_group", "add_features", "probe_query"]


def five_arguments(fn):
    """the scoring function takes the arguments the stand-ins know about"""
    try:
        return len(inspect.signature(fn).parameters) == len(ARGUMENTS)
    except TypeError:
        return False


def arguments(fn, args, kwargs):
    """the arguments of a call of the scoring function, in the usual order"""
    given = inspect.signature(fn).bind(*args, **kwargs)
    given.apply_defaults()
    given = given.arguments
    if set(given) == set(ARGUMENTS):
        return [given[a] for a in ARGUMENTS]
    return list(given.values())


def score_stub(env, settled=False):
    """Replaces the scoring of one cluster by arbitrary scores that keep to the
    contract of the real function: every feature of the cluster and every
    feature to add gets one score; an empty cluster gets none."""
    fn = getattr(hr.index, "measure_feature_contribution_to_cluster", None)
    if not five_arguments(fn):
        return False
    arr = hr.index.array.array
    memo = {}

    def key_name(k):
        return "-".join(str(x) for x in k) if isinstance(k, tuple) else str(k)

    def score(kind, key, feature, group):
        if settled == "mixed":
            # every feature has a definite preference, but how well one is where
            # it is is free
            if feature != 3 or kind == "add":
                return ((5 * feature + 3 * len(group) + 7 * sum(group) + (kind == "own")) % 13) / 10.0
        elif settled:
            # every feature is best where it is; later clusters are better
            return 1.0 if kind == "own" else 0.0 if kind == "add" else 0.01 * (key if isinstance(key, int) else 0)
        # the same question gets the same answer
        k = (kind, tuple(sorted(group)), feature)
        if k not in memo:
            memo[k] = env.real("%s %s %s" % (kind, key_name(key), feature), -1, 2)
        return memo[k]

    def scores(*args, **kwargs):
        _, group_key, feature_group, add_features, _ = arguments(fn, args, kwargs)
        if not feature_group:
            return (group_key, 0, arr("q"), arr("d"), arr("q"), arr("d"))
        own = sorted(feature_group)
        add = sorted(set(add_features) - set(feature_group))
        return (
            group_key,
            score("objective", group_key, 0, own),
            arr("q", own),
            arr("d", [score("own", group_key, f, own) for f in own]),
            arr("q", add),
            arr("d", [score("add", group_key, f, own) for f in add]),
        )

    if not real_shape(env, fn):
        return False
    env.havoc[fn.__name__] = scores
    return True


_shape = {}


def real_shape(env, fn):
    """the real function returns what the stand-ins return"""
    if fn not in _shape:
        arr = hr.index.array.array
        try:
            idx = K.new_index(env, path=os.path.join(env.tmpdir(), "shape.db"))
            K.add_docs(env, idx, ["k0", "k1"])
            sets = [hr.index.BitMap(s) for s in ([0, 1], [1], [0])]
            K.add_features(env, idx, [(f, "text", env.vconst(f), b) for f, b in zip((1, 2, 3), sets)])
            got = fn(idx, 4, {1, 2}, {3}, None)
            _shape[fn] = (
                len(got) == 6 and got[0] == 4 and isinstance(got[2], arr) and isinstance(got[3], arr)
                and isinstance(got[4], arr) and isinstance(got[5], arr)
            )
        except (TypeError, IndexError, KeyError, AttributeError, ValueError):
            _shape[fn] = False
    return _shape[fn]


class Draws:
    """the first n draws are free, later ones take the first choice; every
    draw of a real number is free up to m of them, then 1/4 - or, with m None,
    they are 1/4 and 3/4 in turn"""

    def __init__(self, env, n, m):
        self.env, self.n, self.m = env, n, m
        self.turn = False

    def __call__(self, k, rng=None):
        if k is None:
            if self.m is None:
                self.turn = not self.turn
                return 0.25 if self.turn else 0.75
            if self.m <= 0:
                return 0.25
            self.m -= 1
            r = self.env.real("u", 0, 1)
            self.env.assume(r < 1)
            return r
        if self.n <= 0:
            return 0
        self.n -= 1
        return self.env.pick("draw", k)


def run(env, what, assign, C, D=1, target=None, select=None, group=0, top=1, iterations=1, minimum=1, pins="free", cpins="free",
        draws=(3, 4), tolerance=0.05, schedule="last", unknown=False, bits=None, settled=False):
    F = len(assign)
    idx = K.new_index(env)
    K.add_docs(env, idx, ["k%d" % d for d in range(D)])
    fids = M.FIDS[:F] if F <= len(M.FIDS) else tuple(range(1, F + 1))
    if bits is None:
        bits = {f: env.bits("docs%d" % f, D) for f in fids}
    else:
        bits = {f: env.mkbits([(b >> d) & 1 == 1 for d in range(D)]) for f, b in zip(fids, bits)}
    K.add_features(env, idx, [(f, "text", env.vconst(i), bits[f]) for i, f in enumerate(fids)])
    cids = M.CIDS if C <= len(M.CIDS) else tuple(range(C))
    model = {f: cids[c - 1] for f, c in zip(fids, assign) if c}
    clusters = sorted(set(model.values()))

    def flag(name, mode, x, i):
        if mode == "free":
            return env.pick("%s %d" % (name, x), 2) == 1
        if mode == "all":
            return True
        return mode is not None and i in mode

    pin = {f: flag("pin", pins, f, i) for i, f in enumerate(model)}
    cpin = {c: flag("cluster pin", cpins, c, i) for i, c in enumerate(clusters)}
    K.set_model(env, idx, model, bits, pin, cpin)
    chosen = list(clusters)
    arg = None
    if select is not None:
        arg = [clusters[i] for i in select] + ([77] if unknown else [])
        chosen = [c for c in arg if c in clusters]
    score_stub(env, settled)
    K.look(env, idx, fids, clusters)
    env.draws = Draws(env, *draws)
    env.schedule = schedule
    decided = capture(env)
    t = target if target is not None else None
    err = None
    kw = dict(
        iterations=iterations, cluster_ids=arg, minimum_cluster_features=minimum, target_clusters=t,
        tolerance=tolerance, group_test_batches=group, group_test_top_k=top,
    )
    if what == "C09":
        idx.refine_clusters(**kw)
    else:
        try:
            idx.refine_clusters(**kw)
        except Exception as e:  # the concern of C09
            err = e
    if what == "C05":
        db = K.reader(env, idx)
        K.check_summaries(env, db, bits)
        K.check_reads(env, idx, db, fids=fids)
        env.reach("refined")
        return
    fc, cl = K.read_model(K.reader(env, idx))
    env.observe("model", sorted((f, r[0], r[2]) for f, r in fc.items()))
    free = [c for c in chosen if not cpin[c]]
    moved = [f for f in model if f in fc and fc[f][0] != model[f]]
    if what == "C08":
        env.check(sorted(fc) == sorted(model), "exactly the features of the model are kept")
        for f in model:
            if f not in fc:
                continue
            env.check(env.same(fc[f][2], 1 if pin[f] else 0), "pins are kept")
            if pin[f]:
                env.check(fc[f][0] == model[f], "pinned features stay in their cluster")
            if model[f] not in free:
                env.check(fc[f][0] == model[f], "clusters pinned or not selected lose no feature")
            else:
                to = fc[f][0]
                env.check(to in free or to not in clusters, "clusters pinned or not selected gain no feature")
        for c in clusters:
            if c in cl:
                env.check(env.same(cl[c][4], 1 if cpin[c] else 0), "cluster pins are kept")
        env.check(all(r[0] in cl for r in fc.values()), "every feature is in an existing cluster")
        if moved:
            env.reach("moved")
        if any(fc[f][0] not in clusters for f in moved):
            env.reach("new cluster")
        return
    # C09
    if len(decided) == 1:
        want = sorted(sorted(v) for v in decided[0].values() if v)
        have = {}
        for f, r in fc.items():
            have.setdefault(r[0], []).append(f)
        mine = sorted(sorted(v) for c, v in have.items() if c in free or c not in clusters)
        env.check(mine == want, "everything refinement decided is stored")
        env.reach("stored")
    left = [c for c in cl if c in chosen or c not in clusters]
    n_target = t or len(chosen)
    fixed_c = [c for c in chosen if cpin[c]]
    with_pins = [c for c in free if any(model[f] == c and pin[f] for f in model)]
    forced = len(fixed_c) + max(len(with_pins), 1 if free else 0)
    env.check(len(left) <= max(n_target, forced), "no more clusters than the target unless pins force it")
    if t and t < len(chosen):
        env.reach("reduced")
    if t and len(left) > len(chosen):
        env.reach("split")
    if minimum and (t is None or t == len(chosen)):
        for c in free:
            if sum(1 for f in model if model[f] == c) >= minimum:
                env.check(c in cl, "no selected cluster at the minimum size is emptied")
    return len(left)


def capture(env):
    """what refinement decided, if it can be seen"""
    got = []
    fn = getattr(hr.index.Index, "_refine_feature_groups", None)
    if fn is None:
        return got

    def wrapped(self, *a, **k):
        r = fn(self, *a, **k)
        try:
            got.append({c: set(f) for c, f in r[0].items()})
        except Exception:
            pass
        return r

    env.patch(hr.index.Index, "_refine_feature_groups", wrapped)
    return got


def cases(tier):
    one = dict(bits=[1] * 5, pins=None, cpins=None)
    quick = [
        # keep the number of clusters
        dict(one, assign=[1, 1, 2], C=2, pins="free", cpins="free", draws=(1, 2)),
        dict(one, assign=[1, 1, 2, 3], C=3, draws=(1, 1), pins=[3]),
        dict(one, assign=[1, 2, 3], C=3, select=[0, 2], cpins="free", draws=(2, 3)),
        dict(one, assign=[1, 1, 1, 2, 2], C=2, minimum=2, pins=[3, 4], draws=(1, 3)),
        dict(one, assign=[1, 1, 2, 2], C=2, minimum=0, pins=[0], draws=(1, 1)),
        dict(one, assign=[1, 1, 2], C=2, iterations=2, draws=(1, 1), tolerance=0),
        # everything pinned
        dict(one, assign=[1, 2, 2], C=2, pins="all", draws=(0, 0)),
        dict(one, assign=[1, 2, 3], C=3, cpins="all", draws=(0, 0), target=2),
        # features without documents
        dict(one, assign=[1, 1, 2], C=2, bits=[1, 0, 1], pins="free", draws=(0, 1), target=3),
        dict(one, assign=[1, 2, 3], C=3, bits=[0, 1, 1], pins="free", cpins=[1], draws=(0, 1), target=2),
        dict(one, assign=[1, 1, 2], C=2, bits=[0, 0, 1], cpins="free", pins=[0], draws=(1, 1)),
        # more clusters
        dict(one, assign=[1, 1, 2], C=2, target=3, draws=(0, 2), cpins="free"),
        dict(one, assign=[1, 2, 2, 2], C=3, target=3, select=[1], draws=(1, 2)),
        dict(one, assign=[1, 1, 1, 2], C=2, target=4, select=[0], draws=(0, 2), pins=[0]),
        dict(one, assign=[1, 1, 1], C=1, target=2, draws=(1, 2), unknown=True, select=[0]),
        # fewer clusters
        dict(one, assign=[1, 2, 3], C=3, target=2, draws=(0, 0)),
        dict(one, assign=[1, 2, 3], C=3, target=2, draws=(0, 0), cpins=[1]),
        dict(one, assign=[1, 2, 3], C=3, target=2, draws=(0, 0), pins=[0, 1]),
        dict(one, assign=[1, 2, 3, 3], C=3, target=1, draws=(1, 0), cpins=[0, 1]),
        dict(one, assign=[1, 2, 3, 4], C=4, target=2, draws=(0, 0), cpins=[0, 2]),
        dict(one, assign=[1, 2, 3], C=3, target=1, draws=(0, 0)),
        dict(one, assign=[1, 1, 2], C=2, target=1, draws=(0, 0), pins="free", iterations=2),
        # group testing
        dict(one, assign=[1, 1, 2, 3], C=3, group=1, draws=(0, 0), pins=[2, 3]),
        dict(one, assign=[1, 2, 3], C=3, group=1, target=2, pins=[2], draws=(1, 0)),
        dict(one, assign=[1, 2, 3, 4], C=4, group=2, target=3, draws=(1, 0), pins=[0, 1, 2]),
    ]
    if tier == "quick":
        return quick
    out = []
    for assign in ([1, 1, 2], [1, 2, 2], [1, 2, 3], [1, 1, 2, 2], [1, 2, 2, 3]):
        C = max(assign)
        for target in [None] + list(range(1, C + 3)):
            for select in [None, [0], [C - 1]] + ([[0, 2]] if C > 2 else []):
                for pins, cpins in ((None, None), ("free", None), (None, "free")):
                    out.append(dict(assign=assign, C=C, target=target, select=select, pins=pins, cpins=cpins, draws=(2, 3)))
                out.append(dict(assign=assign, C=C, target=target, select=select, pins=None, cpins=None, draws=(3, 2), group=1))
    for assign in ([1, 2, 3, 4], [1, 1, 2, 3, 4]):
        for target in (None, 1, 2, 3, 5, 6):
            for top in (1, 2):
                out.append(dict(assign=assign, C=4, group=2, target=target, top=top, draws=(3, 1), pins=None, cpins=None))
    for assign in ([1, 1, 2], [1, 2, 3]):
        for target in (None, 1, 2, 4):
            out.append(dict(assign=assign, C=max(assign), target=target, iterations=2, draws=(2, 3), tolerance=0, cpins=None))
            out.append(dict(assign=assign, C=max(assign), target=target, iterations=3, draws=(1, 2), tolerance=0, pins=None, cpins=None))
    return out


def run_large(env, what, C, per, target, pins=None, cpins=None, select=None, group=None, iterations=1, top=2, first=3):
    """one cluster of `first` features, and others of one to `per`"""
    sizes = [first] + [1 + c % per for c in range(C - 1)]
    assign = [c + 1 for c in range(C) for _ in range(sizes[c])]
    if isinstance(target, (list, tuple)):
        target = target[env.pick("target", len(target))]
    run(env, what, assign, C, target=target, pins=pins, cpins=cpins, select=select, group=group, iterations=iterations, top=top,
        draws=(0, 2), bits=[1] * len(assign), settled="mixed")


def large_cases(tier):
    quick = [
        dict(C=12, per=2, target=(None, 5, 16), pins=(0, 4, 9), cpins=(3,)),
        dict(C=12, per=3, target=(None, 1, 11), select=list(range(11)), pins=(1,)),
        dict(C=22, per=1, target=(None, 20, 25), cpins=(1, 8)),
        dict(C=12, per=2, target=(None, 9, 14), group=0, iterations=2),
        dict(C=3, per=2, target=(None, 4, 9), pins=(0, 1, 2, 5, 9), first=14),
    ]
    if tier == "quick":
        return quick
    return quick + [
        dict(C=c, per=p, target=(None, c - 2, c // 2, 1, c + 1, c + 7), pins=x, cpins=y, group=g, iterations=i, top=t)
        for c in (11, 21, 35)
        for p in (1, 2, 4)
        for x, y in ((None, None), ((0, 5, 6), (2,)))
        for g, i, t in ((None, 1, 2), (None, 4, 1), (4, 2, 2), (0, 2, 2))
    ]
