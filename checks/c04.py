"""C04: indexing is all-or-nothing."""
from engine import hr
from . import common as K
from . import indexing as X
from .c02 import old_state, check_new
from .c07 import INTERRUPT, BrokenProcessPool, Failing

BOUNDS = {
    "quick": "an index of 2 features over 2 documents with arbitrary document sets and a model; a new corpus of 2 documents in 1-2 batches; "
    "one failure (a database error or an interrupt) at any statement of any connection, of the corpus (listing keys, fetching or "
    "extracting any document, also of 9-14 documents), of dispatching, of a worker or of the setup; a second reader looking before every statement",
    "thorough": "three batches, every completion order, positions recorded or not",
}
ASSUMPTIONS = [
    "One failure per indexing run; a failing statement has no effect; interrupts arrive between statements.",
    "A committed SQLite transaction is atomic and isolated from other connections (SQLite's guarantee, part of the encoding).",
]

TABLES = {
    "settings": "key",
    "doc_key": "doc_id",
    "inverted_index": "feature_id",
    "position_doc_map": "field, first_doc_id",
    "position_index": "feature_id, first_doc_id",
    "field_summary": "field",
    "cluster": "cluster_id",
    "feature_cluster": "feature_id",
    "changed_cluster": "cluster_id",
}


def snapshot(db):
    return [list(db.execute("select * from %s order by %s" % t)) for t in sorted(TABLES.items())]


class Broken(K.Stub):
    """a corpus that fails at one point"""

    CORPUS_TYPE = "broken"

    def __init__(self, docs, where=None, n=0):
        K.Stub.__init__(self, docs)
        self.where, self.n = where, n

    def hit(self, where, i):
        if where == self.where and i == self.n:
            raise ValueError("injected failure")

    def keys(self):
        for i, (k, _) in enumerate(self.items):
            self.hit("keys", i)
            yield k
        self.hit("keys", len(self.items))

    def docs(self, doc_keys=None, raise_on_missing=False):
        order = [k for k, _ in self.items]
        for k, d in K.Stub.docs(self, doc_keys):
            self.hit("docs", order.index(k))
            yield k, (k, d)

    def index(self, doc):
        self.hit("index", [k for k, _ in self.items].index(doc[0]))
        return doc[1]


FEATS = [("text", 0), ("tag", 1)]
V = 2


def setup(env, shape, fixed, workers, free=None):
    # with free, values are settled but for those documents
    docs = X.content(env, shape, 1 if free is None else 2, free=free)
    idx, fids, bits, assign, pins, cpins = old_state(env, FEATS, 2, 2, fixed, corpus=X.corpus(docs), workers=workers)
    env.schedule = "fixed"
    return idx, docs, fids, bits, assign, pins, cpins


def check_old(env, idx, before, fids, bits, assign):
    db = K.reader(env, idx)
    env.check(not idx.db.in_transaction, "no transaction is left open")
    env.check(env.same(snapshot(db), before), "the index describes exactly what it described before")
    env.check(env.same(snapshot(idx.db), before), "the index object sees what it saw before")
    for f, (field, v) in zip(fids, FEATS):
        env.check(env.same(idx[(field, env.vconst(v))], bits[f]), "lookups return what they returned before")
    return db


def usable(env, idx, docs, fids, assign, pins, cpins, positions):
    """indexing again works, and so does editing the model"""
    try:
        idx.create_cluster_from_features([max(fids) + 7])
    except hr.sqlite3.Error:
        pass
    fc, cl = K.read_model(K.reader(env, idx))
    env.check(sorted(fc) == sorted(assign), "afterwards: the model still only takes features of the index")
    env.check(sorted(cl) == sorted(set(assign.values())), "afterwards: only clusters with features exist")
    idx.corpus = X.corpus(docs)
    idx.index(doc_batch_size=1, index_positions=positions)
    db = K.reader(env, idx)
    check_new(env, idx, db, FEATS, fids, assign, pins, cpins, docs, V, positions, "afterwards: ", public=False)
    if assign:
        c = sorted(assign.values())[0]
        idx.delete_clusters([c])
        fc, cl = K.read_model(db)
        env.check(sorted(fc) == sorted(f for f in assign if assign[f] != c), "afterwards: the model can be edited")


def run_fault(env, shape, batch, fixed, positions=False, workers=2, sched="fixed", free=None):
    """a database error or interrupt at any statement"""
    idx, docs, fids, bits, assign, pins, cpins = setup(env, shape, fixed, workers, free)
    env.schedule = sched
    before = snapshot(idx.db)
    interrupt = env.pick("interrupt", 2) == 1
    done = []

    class Hook(Failing):
        began = False

        def __call__(self, kind, sql, conn):
            # an interrupt reaches this process, not the background ones
            if self.what == INTERRUPT and conn is not idx.db:
                return
            if conn is idx.db:
                if conn.in_transaction:
                    self.began = True
                elif self.began:
                    done.append(True)
            if not done:
                Failing.__call__(self, kind, sql, conn)

    hook = Hook(env, interrupt)
    env.faults(hook)
    err = None
    try:
        idx.index(doc_batch_size=batch, index_positions=positions)
    except (Exception, KeyboardInterrupt) as e:
        err = e
    env.faults(None)
    if not hook.fired:
        env.check(err is None, "without a failure indexing succeeds")
        check_new(env, idx, K.reader(env, idx), FEATS, fids, assign, pins, cpins, docs, V, positions, public=False)
        env.reach("succeeded")
        return
    env.check(err is not None, "the failure reaches the caller")
    if interrupt:
        env.check(isinstance(err, KeyboardInterrupt), "an interrupt reaches the caller as an interrupt")
    check_old(env, idx, before, fids, bits, assign)
    usable(env, idx, docs, fids, assign, pins, cpins, positions)
    env.reach("failed")


def run_corpus(env, shape, batch, fixed, positions=False, workers=1, free=None):
    """the corpus, dispatching or the setup fails"""
    idx, docs, fids, bits, assign, pins, cpins = setup(env, shape, fixed, workers, free)
    before = snapshot(idx.db)
    wheres = ["keys", "docs", "index", "submit", "dies", "manager", "none", "count"]
    where = wheres[env.pick("where", len(wheres))]
    if free is None:
        n = env.pick("which", len(docs) + 1)
    else:
        # some early, the last, or after it
        n = (0, 2, len(docs) // 2, len(docs) - 1, len(docs))[env.pick("which", 5)]
    items = X.corpus(docs).items
    corpus = Broken(items, where, n)
    if where == "none":
        # a token sequence with a missing value cannot be recorded
        env.assume(positions and n < len(docs))
        items[n][1]["text"] = [None]
    if where in ("docs", "index"):
        env.assume(n < len(docs))
    if where == "count":
        # the same document twice
        env.assume(n == 0)
        corpus.items = items + items[:1]
    idx.corpus = corpus
    if where == "submit":
        seen = []

        def hook(fn):
            seen.append(fn)
            if len(seen) == n + 1 and idx.db.in_transaction:
                raise RuntimeError("injected failure")

        env.submit_hook = hook
        env.assume(n * batch < len(docs))
    if where == "dies":
        # the worker that a batch, or whatever else, was sent to
        ran = []

        def died(fn):
            ran.append(fn)
            if len(ran) == n + 1:
                raise BrokenProcessPool("injected failure")

        env.job_hook = died
    if where == "manager":
        env.assume(n == 0)

        def broken(*a, **k):
            raise OSError("injected failure")

        mp = getattr(hr.index, "mp", None)
        env.assume(mp is not None and hasattr(mp, "Manager"))
        env.patch(mp, "Manager", broken)
    err = None
    try:
        idx.index(doc_batch_size=batch, index_positions=positions)
    except Exception as e:
        err = e
    env.submit_hook = env.job_hook = None
    if where == "dies":
        env.assume(len(ran) > n)
    if where == "manager":
        env.undo.pop()()
    env.check(err is not None, "the failure reaches the caller")
    want = {"submit": RuntimeError, "dies": BrokenProcessPool, "manager": OSError, "count": hr.sqlite3.Error}.get(where, ValueError)
    env.check(isinstance(err, want), "the failure itself reaches the caller")
    check_old(env, idx, before, fids, bits, assign)
    usable(env, idx, docs, fids, assign, pins, cpins, positions)
    env.reach(where)


def run_reader(env, shape, batch, fixed, positions=False, workers=1, sched="fixed", free=None):
    """another connection looks before every statement"""
    idx, docs, fids, bits, assign, pins, cpins = setup(env, shape, fixed, workers, free)
    env.schedule = sched
    db = K.reader(env, idx)
    before = snapshot(db)
    seen = []
    busy = []

    def look(kind, sql, conn):
        if busy or conn is not idx.db:
            return
        busy.append(1)
        s = snapshot(db)
        if not seen or repr(seen[-1]) != repr(s):
            seen.append(s)
        busy.pop()

    env.faults(look)
    idx.index(doc_batch_size=batch, index_positions=positions)
    env.faults(None)
    after = snapshot(db)
    check_new(env, idx, db, FEATS, fids, assign, pins, cpins, docs, V, positions, public=False)
    for s in seen:
        env.check(env.or_(env.same(s, before), env.same(s, after)), "a reader sees the complete old or the complete new content")
    env.reach("seen")


def run_nested(env, shape, fixed, how):
    """indexing inside an open transaction"""
    idx, docs, fids, bits, assign, pins, cpins = setup(env, shape, fixed, 1)
    before = snapshot(idx.db)
    err = []

    def attempt(self=None):
        try:
            idx.index(doc_batch_size=1)
        except hr.index.IndexingError as e:
            err.append(e)
        env.check(idx.db.in_transaction, "the transaction remains open")
        env.check(env.same(snapshot(idx.db), before), "nothing changes within the transaction")

    if how == "begin":
        idx.db.execute("begin")
        attempt()
        idx.db.execute("commit")
    elif how == "atomic":
        hr.index.atomic()(attempt)(idx)
    else:
        f = sorted(assign)[0]

        def edit(self):
            idx.delete_features([f])
            try:
                idx.index(doc_batch_size=1)
            except hr.index.IndexingError as e:
                err.append(e)

        hr.index.atomic(writes=True)(edit)(idx)
        fc, cl = K.check_summaries(env, K.reader(env, idx), bits)
        env.check(sorted(fc) == sorted(x for x in assign if x != f), "the edit around it takes effect")
        env.check(len(err) == 1, "indexing within a transaction is refused")
        env.reach("refused")
        return
    env.check(len(err) == 1, "indexing within a transaction is refused")
    check_old(env, idx, before, fids, bits, assign)
    usable(env, idx, docs, fids, assign, pins, cpins, False)
    env.reach("refused")


L, S = "list", "set"
TWO = [{"text": (L, 1)}, {"tag": (S, 1), "text": (L, 2)}]
THREE = TWO + [{"new": (L, 1)}]
SCENARIOS = {
    "fault": {
        "run": run_fault,
        "sample": (20, 4),
        "quick": [
            dict(shape=TWO, batch=1, fixed=[1, 2]),
            dict(shape=TWO, batch=2, fixed=[1, 1], positions=True),
            dict(shape=[], batch=2, fixed=[1, 0]),
            dict(shape=THREE, batch=1, fixed=[0, 1], workers=1, sched="order"),
            dict(shape=X.many(8), batch=1, fixed=[1, 2], positions=True, free=[]),
        ],
        "thorough": [
            dict(shape=THREE, batch=b, fixed=x, positions=p, workers=w, sched=s)
            for b, w, s in ((1, 1, "order"), (1, 3, "order"), (2, 2, "order"), (1, 1, "free"))
            for x in ([1, 2], [1, 1], [0, 1])
            for p in (False, True)
        ],
        "reach": ["failed", "succeeded"],
    },
    "corpus": {
        "run": run_corpus,
        "sample": (20, 2),
        "quick": [dict(shape=TWO, batch=1, fixed=[1, 2], positions=True), dict(shape=TWO, batch=2, fixed=[1, 1])]
        + [dict(shape=X.many(14), batch=1, fixed=[1, 2], workers=2, free=[13]), dict(shape=X.many(9), batch=4, fixed=[1, 2], positions=True, free=[])],
        "thorough": [dict(shape=X.many(n), batch=b, fixed=[1, 2], positions=p, free=[n - 1]) for n, b in ((12, 1), (40, 3)) for p in (False, True)]
        + [
            dict(shape=THREE, batch=b, fixed=x, positions=p, workers=w)
            for b in (1, 2, 3)
            for x in ([1, 2], [1, 1], [0, 1])
            for p in (False, True)
            for w in (1, 3)
        ],
        "reach": ["keys", "docs", "index", "submit", "dies", "manager", "none", "count"],
    },
    "reader": {
        "run": run_reader,
        "quick": [dict(shape=TWO, batch=1, fixed=[1, 2]), dict(shape=TWO, batch=2, fixed=[1, 1], positions=True)]
        + [dict(shape=X.many(15), batch=2, fixed=[1, 2], positions=True, free=[])],
        "thorough": [
            dict(shape=THREE, batch=b, fixed=x, positions=p, sched="order") for b in (1, 2) for x in ([1, 2], [1, 1]) for p in (False, True)
        ],
        "reach": ["seen"],
    },
    "nested": {
        "run": run_nested,
        "quick": [dict(shape=TWO[:1], fixed=[1, 2], how=h) for h in ("begin", "atomic", "edit")],
        "reach": ["refused"],
    },
}
