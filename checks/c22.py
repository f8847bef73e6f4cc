"""C22: upgrading an old index preserves its content and completes."""
from engine import hr
from . import common as K
from . import indexing as X
from . import oldindex as O
from .c07 import Failing

BOUNDS = {
    "quick": "indexes of every version 4 to 9 with 3 features in up to 2 clusters over 2 documents, arbitrary document sets and pins (26 features in 13 clusters, mostly settled); "
    "a failure (database error or interrupt) at any statement of opening; every model edit and a re-index afterwards",
    "thorough": "every assignment of 3 features, 3 documents",
}
ASSUMPTIONS = [
    "Version 4 is as in the index file of the test suite; versions 5 to 9 are version 4 with what the migrations add, "
    "and with the tables their migrations mention.",
    "Summaries of versions from 5 on are right, or marked as changed.",
    "One failure per opening; a failing statement has no effect.",
]


def check_content(env, idx, fids, values, bits, model, pins, cpins, positions, label=""):
    db = K.reader(env, idx)
    env.check(list(db.execute("pragma user_version"))[0][0] == hr.schema.CURRENT_SCHEMA_VERSION, label + "the index has the current version")
    field = O.field
    env.check([tuple(r) for r in db.execute("select doc_id, doc_key from doc_key order by doc_id")] == [(d, "k%d" % d) for d in range(len(list(db.execute("select 1 from doc_key"))))], label + "document keys")
    rows = list(db.execute("select feature_id, field, value, docs_count, doc_ids from inverted_index order by feature_id"))
    env.check(
        env.same([tuple(r) for r in rows], [(f, field(i), values[i], K.card(env, bits[f]), bits[f]) for i, f in enumerate(fids)]),
        label + "features and their documents",
    )
    fc, cl = K.check_summaries(env, db, bits, label)
    env.check({f: r[0] for f, r in fc.items()} == model, label + "every feature is in its cluster")
    for f in fc:
        env.check(env.same(fc[f][2], env.ite(pins.get(f, False), 1, 0)), label + "pin of a feature")
    for c in cl:
        env.check(env.same(cl[c][4], env.ite(cpins.get(c, False), 1, 0)), label + "pin of a cluster")
    fs = {r[0]: tuple(r[1:]) for r in db.execute("select field, distinct_values, min_value, max_value, position_count from field_summary")}
    want = {}
    for i, f in enumerate(fids):
        vs = [values[j] for j in range(len(fids)) if field(j) == field(i)]
        want[field(i)] = (len(vs), vs[0], vs[-1], positions.get(field(i), 0))
    env.check(env.same(fs, want), label + "field summaries")
    for i, f in enumerate(fids):
        env.check(env.same(idx[f], bits[f]) and env.same(idx[(field(i), values[i])], bits[f]), label + "lookups")
    for c in sorted(set(model.values())):
        env.check(sorted(r[0] for r in idx.cluster_features(c)) == sorted(f for f in model if model[f] == c), label + "members of a cluster")
    env.check(not idx.db.in_transaction, label + "no transaction is left open")
    return db


def use(env, idx, fids, values, bits, model, pins, cpins, how):
    """the upgraded index can be worked with"""
    if how == "edit" and model:
        f = sorted(model)[0]
        idx.delete_features([f])
        left = {g: c for g, c in model.items() if g != f}
        fc, cl = K.check_summaries(env, K.reader(env, idx), bits, "afterwards: ")
        env.check({g: r[0] for g, r in fc.items()} == left, "afterwards: edits take effect")
        if left:
            new = idx.create_cluster_from_features(list(left)[:1])
            fc, cl = K.check_summaries(env, K.reader(env, idx), bits, "afterwards: ")
            env.check(fc[list(left)[0]][0] == new, "afterwards: features can be moved")
            idx.pin_clusters([new])
            env.check(sorted(idx.pinned_cluster_ids) == sorted(set([new] + [c for c in idx.cluster_ids if c in cpins and bool(cpins[c])])), "afterwards: clusters can be pinned")
        env.reach("edited")
    elif how == "index":
        docs = [("kz", {"text": ("list", [values[0], values[0]])})]
        idx.corpus = X.corpus(docs)
        idx.index(doc_batch_size=1, index_positions=True)
        db = K.reader(env, idx)
        ids = X.check_docs(env, db, docs, "afterwards: ")
        env.check(env.same(idx[("text", values[0])], env.mkbits([d in ids.values() for d in range(max(ids.values(), default=0) + 1)])), "afterwards: it can be indexed")
        X.check_positions(env, db, docs, ids, 1, "afterwards: ")
        env.reach("indexed")


def run_upgrade(env, versions, F, D, assigns, how, pending=False):
    version = versions[env.pick("version", len(versions))]
    assign = assigns[env.pick("assign", len(assigns))]
    path, *content = O.build(env, version, F, D, assign, pending=pending)
    idx = K.new_index(env, path=path)
    check_content(env, idx, *content)
    env.reach("version %d" % version)
    # opening it again changes nothing
    before = O.dump(path)
    again = K.new_index(env, path=path)
    env.check(env.same(O.dump(path), before), "opening an up to date index changes nothing")
    check_content(env, again, *content)
    fids, values, bits, model, pins, cpins, positions = content
    use(env, idx, fids, values, bits, model, pins, cpins, how)
    env.observe("after", O.dump(path)[3:])


def run_fault(env, versions, F, D, assign):
    """a failure at any statement of opening an old index"""
    version = versions[env.pick("version", len(versions))]
    interrupt = env.pick("interrupt", 2) == 1
    path, *content = O.build(env, version, F, D, assign)
    before = O.dump(path)
    hook = Failing(env, interrupt)
    env.faults(hook)
    err = idx = None
    try:
        idx = K.new_index(env, path=path)
    except (Exception, KeyboardInterrupt) as e:
        err = e
    env.faults(None)
    if not hook.fired:
        env.check(err is None, "without a failure the upgrade succeeds")
        return
    env.check(err is not None, "the failure reaches the caller")
    if interrupt:
        env.check(isinstance(err, KeyboardInterrupt), "an interrupt reaches the caller as an interrupt")
    del err, hook, idx
    now = O.dump(path)
    if now[0] == version:
        # the journal mode is no content
        env.check(env.same(now[:2] + now[3:], before[:2] + before[3:]), "the index is left as it was")
        env.reach("left")
    else:
        env.reach("completed")
    idx = K.new_index(env, path=path)
    check_content(env, idx, *content, label="opened again: ")


def run_current(env, F, D, assign):
    """an index of the current version"""
    path, *content = O.build(env, 9, F, D, assign)
    K.new_index(env, path=path)
    before = O.dump(path)
    idx = K.new_index(env, path=path)
    env.check(env.same(O.dump(path), before), "opening an up to date index changes nothing")
    check_content(env, idx, *content)
    env.reach("unchanged")


A3 = [[1, 1, 2], [1, 2, 1], [0, 1, 0], [0, 0, 0], [2, 0, 1]]
ALL = [[a, b, c] for a in range(3) for b in range(3) for c in range(3)]
SCENARIOS = {
    "upgrade": {
        "run": run_upgrade,
        "quick": [
            dict(versions=[4, 5, 6, 7, 8, 9], F=3, D=2, assigns=A3, how="edit"),
            dict(versions=[4, 5, 8, 9], F=26, D=14, assigns=[[1 + i % 13 for i in range(26)], [1] * 17 + [0] * 5 + [2, 3, 2, 3]], how="edit"),
            dict(versions=[4, 5, 9], F=3, D=1, assigns=A3[:2], how="index"),
            dict(versions=[5, 7, 8], F=3, D=2, assigns=A3[:2], how="edit", pending=True),
        ],
        "thorough": [dict(versions=[4, 5, 6, 7, 8, 9], F=3, D=3, assigns=ALL, how=h) for h in ("edit", "index")]
        + [dict(versions=list(range(4, 10)), F=80, D=30, assigns=[[1 + i % 40 for i in range(80)], [1] * 60 + [2] * 20], how="edit", pending=p) for p in (False, True)],
        "reach": ["version %d" % v for v in range(4, 10)] + ["edited", "indexed"],
    },
    "fault": {
        "run": run_fault,
        "quick": [dict(versions=[4, 8, 9], F=3, D=1, assign=[1, 1, 2])],
        "thorough": [dict(versions=[4, 5, 6, 7, 8, 9], F=3, D=2, assign=a) for a in A3],
        "reach": ["left"],
    },
    "current": {"run": run_current, "quick": [dict(F=3, D=2, assign=[1, 2, 0])], "reach": ["unchanged"]},
}
