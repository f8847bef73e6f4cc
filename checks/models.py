"""Model-changing operations over arbitrary model states (C05, C06, C07)."""
import itertools

from engine import hr
from . import common as K

FIDS = (1, 2, 3, 5)
CIDS = (0, 2, 3)


def partitions(n, c):
    """which cluster (0..c) each feature is in, 0 meaning none"""
    return list(itertools.product(range(c + 1), repeat=n))


def aged(run):
    """the scenario, on an index object that was used before the model or the
    documents became what they are"""

    def aged_run(env, history, **kw):
        env.history = history
        return run(env, **kw)

    return aged_run


def warm(env, idx, fids, queries=()):
    """reads what can be read, and changes what is given out"""
    for k in (20, 1):
        idx.top_cluster_features(top_k=k).clear()
    clusters = list(idx.cluster_ids)
    query = hr.BitMap([0, 1])
    for c in clusters:
        idx.cluster_features(c).clear()
        idx.cluster_features(c, top_k=1).clear()
        K.spoil(idx.cluster_query(c)[0])
        list(idx.pivot_clusters_by_query(query, cluster_ids=[c], top_k=1))
    K.look(env, idx, fids, clusters)
    list(idx.pivot_clusters_by_query(query, top_k=2))
    idx.create_cluster_cooccurrence_graph()
    idx.structured_doc_sample(docs_per_cluster=0)
    idx.union_bitslice(list(fids))
    idx.pinned_cluster_ids
    for f in sorted(set(r[0] for r in idx.indexed_field_summary())):
        idx.intersect_queries_with_field({"q": query}, f)
    if idx.corpus is not None:
        n = list(idx.db.execute("select count(*) from doc_key"))[0][0]
        for i in range(n):
            list(idx.docs(hr.BitMap([i])))
        list(idx.render_docs_html(hr.BitMap(range(n))))
        list(idx.render_docs_table(hr.BitMap(range(n))))


def reindex(env, idx, feats, D):
    """the documents become those the features (field, value, documents) say, in
    the same order"""
    docs = []
    for d in range(D):
        doc = {f[0]: set() for f in feats}
        for field, value, bits in feats:
            if env.bit(bits, d):
                doc[field].add(value)
        docs.append(("k%d" % d, doc))
    idx.corpus = K.Stub(docs)
    idx.index(doc_batch_size=1)
    env.reach("reindexed")


def aged_state(env, F, C, D, fixed, history):
    """an arbitrary state, reached while the index object was in use: by edits of
    the model, or by indexing other documents"""
    fids = FIDS[:F]
    new = {f: env.bits("docs%d" % f, D) for f in fids}
    if history == "edit":
        old, D0 = new, D
    else:
        D0 = D + 1
        old = {f: hr.BitMap([(2 * i + j) % D0 for j in range(1 + i % 2)]) for i, f in enumerate(fids)}
    idx = K.new_index(env, corpus=K.Stub([("o%d" % d, {"body": d}) for d in range(D0)]))
    K.add_docs(env, idx, ["o%d" % d if history == "reindex" else "k%d" % d for d in range(D0)])
    K.add_features(env, idx, [(f, K.FIELDS[i], K.value(env, i), old[f]) for i, f in enumerate(fids)])
    idx.corpus = idx.corpus if history == "reindex" else None
    assign = {f: env.cids[c - 1] for f, c in zip(fids, fixed) if c}
    first = assign[fids[0]]
    # what will be deleted is in the model yet, the first feature is elsewhere
    before = {f: assign.get(f, first) for f in fids}
    if history == "edit":
        before[fids[0]] = 9
        K.set_model(env, idx, before, old)
    else:
        K.set_model(env, idx, assign, old)
    warm(env, idx, fids)
    pins = {f: i % 2 == 1 for i, f in enumerate(assign)}
    cpins = {c: i % 2 == 0 for i, c in enumerate(sorted(set(assign.values())))}
    if history == "edit":
        idx.merge_clusters([first, 9])
        gone = [f for f in fids if f not in assign]
        if gone:
            idx.delete_features(gone)
        env.reach("edited")
    else:
        reindex(env, idx, [(K.FIELDS[i], K.value(env, i), new[f]) for i, f in enumerate(fids)], D)
    idx.pin_features([f for f in pins if pins[f]])
    idx.pin_clusters([c for c in cpins if cpins[c]])
    return idx, fids, new, assign, pins, cpins


def state(env, F, C, D, fixed=None, full=False, cids=None):
    """An arbitrary index with F features over D documents and an arbitrary
    model on it."""
    env.cids = tuple(cids or CIDS)
    if getattr(env, "history", None):
        return aged_state(env, F, C, D, fixed, env.history)
    idx = K.new_index(env)
    K.add_docs(env, idx, ["k%d" % d for d in range(D)])
    fids = FIDS[:F]
    bits = {f: env.bits("docs%d" % f, D) for f in fids}
    K.add_features(env, idx, [(f, K.FIELDS[i], K.value(env, i), bits[f]) for i, f in enumerate(fids)])
    assign = {}
    for i, f in enumerate(fids):
        if fixed is not None:
            c = fixed[i]
        elif full:
            c = 1 + env.pick("cluster of %d" % f, C)
        else:
            c = env.pick("cluster of %d" % f, C + 1)
        if c:
            assign[f] = env.cids[c - 1]
    pins = {f: env.bool("pin%d" % f) for f in assign}
    cpins = {c: env.bool("cpin%d" % c) for c in sorted(set(assign.values()))}
    K.set_model(env, idx, assign, bits, pins, cpins)
    return idx, fids, bits, assign, pins, cpins


def large_state(env, sizes, free, pinned=(), D=20, thin=()):
    """An index with as many features in each cluster as sizes says, each with
    5 to 12 documents of its own choosing (one in clusters at positions in
    `thin`); two more documents may or may not
    contain the features in `free` (positions among all features), and those
    in `pinned` may or may not be pinned (as may the clusters they are in)."""
    env.cids = tuple(2 * i for i in range(len(sizes)))
    idx = K.new_index(env)
    K.add_docs(env, idx, ["k%02d" % d for d in range(D)])
    fids, bits, assign = [], {}, {}
    for at, (c, n) in enumerate(zip(env.cids, sizes)):
        for _ in range(n):
            i = len(fids)
            f = i + 1
            docs = hr.BitMap([(3 * i + j) % (D - 2) for j in range(1 if at in thin else 5 + (7 * i) % 8)])
            if i in free:
                docs = docs | env.bits("docs%d" % f, 2, base=D - 2)
            fids.append(f)
            bits[f] = docs
            assign[f] = c
    K.add_features(env, idx, [(f, K.FIELDS[i % 5], K.value(env, i), bits[f]) for i, f in enumerate(fids)])
    pins = {f: env.bool("pin%d" % f) if f - 1 in pinned else False for f in assign}
    cpins = {c: env.bool("cpin%d" % c) if i in pinned else False for i, c in enumerate(env.cids)}
    K.set_model(env, idx, assign, bits, pins, cpins)
    return idx, fids, bits, assign, pins, cpins


def pick_list(env, name, choices, n):
    """a list of up to n of the choices, in any order, with repetitions"""
    k = env.pick(name + " length", n + 1)
    return [choices[env.pick("%s %d" % (name, i), len(choices))] for i in range(k)]


def long_list(env, name, choices, n):
    """most of the choices, from one of three places on, one of them twice"""
    k = (len(choices), len(choices) - 2, len(choices) // 2 + 1)[env.pick(name + " length", 3)]
    r = (0, 3, len(choices) - 2)[env.pick(name + " start", 3)]
    got = (list(choices) + list(choices))[r : r + k]
    return got + got[1:2]


# Each operation: arguments(env, ...) -> thunk and the expected result
def operation(env, op, idx, fids, bits, assign, pins, cpins, C, nargs, pick_list=pick_list):
    """chooses arguments; returns (call, expected assign, pins, cpins)"""
    assign, pins, cpins = dict(assign), dict(pins), dict(cpins)
    cids = list(env.cids[:C]) + [9]  # 9 is no cluster
    if op == "delete_clusters":
        cs = pick_list(env, "arg", cids, nargs)
        for f in list(assign):
            if assign[f] in cs:
                del assign[f], pins[f]
        call = lambda: idx.delete_clusters(cs)
    elif op == "delete_features":
        fs = pick_list(env, "arg", list(fids) + [8 if 8 not in fids else 808], nargs)
        for f in fs:
            assign.pop(f, None)
            pins.pop(f, None)
        call = lambda: idx.delete_features(fs)
    elif op == "merge_clusters":
        first = cids[env.pick("first", len(cids))]
        cs = [first] + pick_list(env, "arg", cids, nargs)
        for f in assign:
            if assign[f] in cs:
                assign[f] = first
        call = lambda: idx.merge_clusters(cs)
    elif op == "create_cluster":
        fs = pick_list(env, "arg", list(fids), nargs)
        new = None

        def call():
            got = idx.create_cluster_from_features(fs)
            env.check(got not in cpins_before, "the new cluster's id was not in use")
            env.reach("created") if fs else None
            return got

        cpins_before = set(cpins)
        assign = {**assign, **{f: "new" for f in fs}}
        pins = {**pins, **{f: pins.get(f, False) for f in fs}}
    elif op == "pin_features":
        fs = pick_list(env, "arg", list(fids) + [8 if 8 not in fids else 808], nargs)
        v = env.pick("pinned", 2) == 1
        for f in fs:
            if f in pins:
                pins[f] = v
        call = lambda: idx.pin_features(fs, v)
    elif op == "pin_clusters":
        cs = pick_list(env, "arg", cids, nargs)
        v = env.pick("pinned", 2) == 1
        for c in cs:
            if c in cpins:
                cpins[c] = v
        call = lambda: idx.pin_clusters(cs, v)
    else:
        raise ValueError(op)
    return call, assign, pins, cpins


OPS = ("delete_clusters", "delete_features", "merge_clusters", "create_cluster", "pin_features", "pin_clusters")


def check_result(env, fc, cl, ret, assign, pins, cpins):
    assign = {f: (ret if c == "new" else c) for f, c in assign.items()}
    env.check(sorted(fc) == sorted(assign), "exactly the expected features are in the model")
    env.check(sorted(cl) == sorted(set(assign.values())), "exactly the expected clusters exist")
    for f in sorted(set(fc) & set(assign)):
        env.check(env.same(fc[f][0], assign[f]), "every feature is in the expected cluster")
        env.check(env.same(fc[f][2], env.ite(pins.get(f, False), 1, 0)), "every feature has the expected pin")
    for c in sorted(set(cl) & set(assign.values())):
        env.check(env.same(cl[c][4], env.ite(cpins.get(c, False), 1, 0)), "every cluster has the expected pin")
