"""Indexes with positional information, built directly (C12, C13)."""
from engine import hr
from . import common as K
from . import indexing as X


def settled(d, i, values):
    """a token where it does not matter: mostly not one of the features"""
    h = (d * 31 + i * i * 17 + i * 5) % 13
    return h if h < values else values


def build_aged(env, layout, values, field, workers, extra, history):
    """the same by indexing, on an index object that was used when other documents
    were there, in other batches (history: their batch size and whether positions
    were recorded)"""
    X.use_values(env, [9, 10, 15, 12][: max(values + 1, extra[1] if extra else 0)])
    idx = K.new_index(env, workers=workers, seed=7)
    fids = list(range(1, values + 2))
    feats = [(f, field, env.vconst(v)) for v, f in enumerate(fids)]
    if extra:
        efids = [100 + i for i in range(extra[1])]
        feats += [(f, extra[0], env.vconst(v)) for v, f in enumerate(efids)]
    K.add_features(env, idx, [t + (hr.BitMap(),) for t in feats])

    def corpus(name, docs, edocs):
        got = []
        for d, toks in enumerate(docs):
            doc = {field: [env.vconst(t) for t in toks]}
            if extra:
                doc[extra[0]] = [env.vconst(t) for t in edocs[d]]
            got.append((name % d, doc))
        return K.Stub(got)

    batch, positions = history
    n = sum(len(b) for b in layout)
    old = [[(d + i) % values for i in range(2 + d)] for d in range(n + 1)]
    idx.corpus = corpus("o%d", old, [[i % extra[1] for i, _ in enumerate(t)] for t in old] if extra else None)
    idx.index(doc_batch_size=batch, index_positions=positions)
    for w in (0, 1, 3):
        for v in range(values):
            idx.score_passages_dnf([[fids[v]], [fids[0]]], w).clear()
        idx.count_collocations(field, [fids[0]], w)[0].clear()
    idx.positional_fields
    idx.indexed_field_summary()
    every = hr.BitMap(range(n + 1))
    list(idx.concordances(every, fids[:1], 1))
    got = idx.score_passages_dnf([[fids[0]]], 1)
    if got:
        list(idx.render_passages_table(got, passage_overhang=1))
    toks = [[env.pick("tok%d.%d" % (d, i), values + 1) for i in range(k)] for d, k in enumerate(sum(layout, []))]
    etoks = [[env.pick("x%d.%d" % (d, i), extra[1]) for i in range(len(t))] for d, t in enumerate(toks)] if extra else None
    idx.corpus = corpus("k%d", toks, etoks)
    idx.index(doc_batch_size=len(layout[0]), index_positions=True)
    env.reach("reindexed")
    docs = list(enumerate(toks))
    return (idx, fids, docs) + ((efids, list(enumerate(etoks))) if extra else ())


def aged(run):
    def aged_run(env, history, **kw):
        env.history = history
        return run(env, **kw)

    return aged_run


def build(env, layout, values, field="text", workers=2, extra=None, free=None):
    """layout: batches, each a list of document lengths.  Every token is one of
    `values` feature values or something else not indexed as a query feature
    (label `values`, always indexed too).  Returns idx, feature ids, documents:
    [(doc_id, [token labels])].  With free, only the tokens at those
    (document, position) are free."""
    if getattr(env, "history", None):
        return build_aged(env, layout, values, field, workers, extra, env.history)
    idx = K.new_index(env, workers=workers, seed=7)
    free = None if free is None else {tuple(x) for x in free}
    n_docs = sum(len(b) for b in layout)
    K.add_docs(env, idx, ["k%d" % d for d in range(n_docs)])
    fids = list(range(1, values + 2))
    docs = []
    doc_id = 0
    batches = []
    for b in layout:
        cur = []
        for n in b:
            toks = [
                env.int("tok%d.%d" % (doc_id, i), 0, values) if free is None or (doc_id, i) in free else settled(doc_id, i, values)
                for i in range(n)
            ]
            cur.append((doc_id, toks))
            docs.append((doc_id, toks))
            doc_id += 1
        batches.append(cur)
    feats = []
    for v, f in enumerate(fids):
        feats.append((f, field, env.vconst(v), env.mkbits([env.or_(*[env.eq(t, v) for t in toks]) for _, toks in docs])))
    K.add_features(env, idx, feats)
    total = sum(len(t) for _, t in docs)
    idx.db.execute("update field_summary set position_count = ? where field = ?", (total, field))
    for cur in batches:
        if not cur:
            continue
        add_batch(env, idx, field, fids, cur)
    if extra:
        # another positional field over the same batches and documents
        efield, evalues = extra
        efids = [100 + i for i in range(evalues)]
        # (with other lengths)
        lens = {d: len(t) for b in batches for (d, _), (_, t) in zip(b, reversed(b))}
        edocs = [(d, [env.int("x%d.%d" % (d, i), 0, evalues - 1) if free is None else i % evalues for i in range(lens[d])]) for d, _ in docs]
        K.add_features(
            env,
            idx,
            [
                (f, efield, env.vconst(v), env.mkbits([env.or_(*[env.eq(t, v) for t in toks]) for _, toks in edocs]))
                for v, f in enumerate(efids)
            ],
        )
        idx.db.execute("update field_summary set position_count = ? where field = ?", (total, efield))
        by = dict(edocs)
        for cur in batches:
            add_batch(env, idx, efield, efids, [(d, by[d]) for d, _ in cur])
        return idx, fids, docs, efids, edocs
    return idx, fids, docs


def add_batch(env, idx, field, fids, cur):
    flat = [t for _, toks in cur for t in toks]
    starts = [0]
    for _, toks in cur:
        if toks:
            starts.append(starts[-1] + len(toks))
    ids = [d for d, toks in cur if toks]
    idx.db.execute(
        "insert into position_doc_map values(?, ?, ?, ?, ?, ?)",
        (field, cur[0][0], cur[-1][0], len(ids), hr.BitMap(ids), hr.BitMap(starts)),
    )
    for v, f in enumerate(fids):
        terms = [env.eq(t, v) for t in flat]
        if env.or_(*terms):  # only features that occur have a row
            idx.db.execute(
                "insert into position_index(feature_id, first_doc_id, position_count, positions) values(?, ?, ?, ?)",
                (f, cur[0][0], env.count(terms), env.mkbits(terms)),
            )
