"""Indexing corpora of symbolic content with the real Index.index, and what the
result has to be (C01, C02, C03, C04)."""
import os

from engine import hr
from . import common as K

KEYS = ("kc", "ka", "kd", "kb", "ke", "kf")
SEQ = ("list", "tuple")


VALUES = [0, "", "0", 0.5, b"", "\u00e9", -3, "E\u0301", b"a", "a", "A", "a ", "text", "1", 1, "_", "%", "1.0"]
ORDER = [({int: 0, float: 0, str: 1, bytes: 2}[type(v)], v) for v in VALUES]


def use_values(env, use):
    """from here on the values are these, of any kind, and not abstract ones"""
    vals = [VALUES[i] for i in use]
    rank = {v: ORDER[i] for i, v in zip(use, vals)}
    env.vconst = lambda i: vals[i]
    env.val = lambda n, k: vals[env.pick(n, k)]
    env.le = lambda a, b: rank[a] <= rank[b]
    return len(vals)


def content(env, shape, V, tag="", free=None, keys=KEYS):
    """shape: for every document {field: (kind, number of values)}.  Every value
    is one of V values; with free, only those of the documents it lists are
    arbitrary.  Returns the documents as the corpus gives them out."""
    docs = []
    for i, fields in enumerate(shape):
        doc = {}
        for f in sorted(fields):
            kind, n = fields[f][:2]
            if free is None or i in free:
                vs = [env.val("%s%d.%s.%d" % (tag, i, f, j), V) for j in range(n)]
            else:
                vs = [env.vconst((7 * i + 3 * j + i * i // 3 + len(f)) % V) for j in range(n)]
            doc[f] = (kind, vs)
        docs.append((keys[i] if i < len(keys) else "k%04d" % (i * 17 % 2003), doc))
    return docs


def many(n):
    """the shape of n documents of 0-4 tokens and 0-2 tags"""
    return [{"text": ("list", (i * 3 + 1) % 5), "tag": ("set", i % 3), "body": ("tuple", 2 if i % 4 == 1 else 0)} for i in range(n)]


def corpus(docs):
    """the stub corpus with this content"""
    out = []
    for k, doc in docs:
        d = {}
        for f, (kind, vs) in doc.items():
            if kind == "none":
                d[f] = set(list(vs) + [None])
            else:
                d[f] = {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset}[kind](vs)
        out.append((k, d))
    return K.Stub(out)


def fields_of(*many):
    return sorted(set(f for docs in many for _, doc in docs for f in doc))


def check_docs(env, db, docs, label=""):
    """every corpus document has exactly one id; returns {key: id}"""
    rows = list(db.execute("select doc_id, doc_key from doc_key order by doc_id"))
    env.check(sorted(k for _, k in rows) == sorted(k for k, _ in docs), label + "every document has exactly one id")
    env.check(len(set(d for d, _ in rows)) == len(rows), label + "every document id has exactly one key")
    return {k: d for d, k in rows}


def check_features(env, idx, db, docs, V, label="", old=(), public=True):
    """lookups return exactly the documents with the feature"""
    ids = check_docs(env, db, docs, label)
    rows = list(db.execute("select feature_id, field, value, docs_count, doc_ids from inverted_index"))
    fids = [r[0] for r in rows]
    env.check(len(set(fids)) == len(fids), label + "feature ids are unique")
    for i, a in enumerate(rows):
        for b in rows[:i]:
            if a[1] == b[1]:
                env.check(env.not_(env.eq(a[2], b[2])), label + "a feature is recorded once")
    present = {}
    for f in fields_of(docs):
        for v in range(V):
            vc = env.vconst(v)
            want = {}
            for k, doc in docs:
                if f in doc and k in ids:
                    want[ids[k]] = env.or_(*[env.eq(x, vc) for x in doc[f][1]])
            n = max(list(want) + [-1]) + 1
            want = env.mkbits([want.get(d, False) for d in range(n)])
            present[f, v] = want
            for i in range(2 if public else 1):
                got = idx[(f, vc)]
                env.check(env.same(got, want), label + "lookup by value returns exactly the documents with the value")
                K.spoil(got)
    names = fields_of(docs)
    for fid, f, value, count, bits in rows:
        env.check(f in names or f in old, label + "only fields of the corpus are recorded")
        env.check(env.same(count, K.card(env, bits)), label + "recorded document count is the number of documents")
        if f in names:
            env.check(
                env.or_(*[env.and_(env.eq(value, env.vconst(v)), env.same(bits, present[f, v])) for v in range(V)]),
                label + "every recorded feature has exactly its documents",
            )
        else:
            env.check(env.same(K.card(env, bits), 0), label + "a vanished feature matches no document")
        if public:
            for i in range(2):
                got = idx[fid]
                env.check(env.same(got, bits), label + "lookup by id and by value agree")
                K.spoil(got)
            env.check(env.same(tuple(idx.lookup_feature(fid)), (f, value)), label + "a feature id names its feature")
            env.check(env.same(idx.lookup_feature_id((f, value)), fid), label + "a feature is named by its id")
    return ids, rows, present


def check_summary(env, idx, docs, V, present, positions, label="", seqs=SEQ):
    """field summary of the indexed content"""
    rows = {r[0]: r[1:] for r in idx.db.execute("select field, distinct_values, min_value, max_value, position_count from field_summary")}
    for f in fields_of(docs):
        have = [K.card(env, present[f, v]) > 0 for v in range(V)]
        n = env.count(have)
        if f not in rows:
            env.check(env.eq(n, 0), label + "every field with values is summarised")
            continue
        d, lo, hi, p = rows[f]
        env.check(env.same(d, n), label + "number of distinct values of a field")
        if lo is not None:
            for v in range(V):
                env.check(env.implies(have[v], env.and_(env.le(lo, env.vconst(v)), env.le(env.vconst(v), hi))), label + "value range of a field")
            env.check(env.or_(*[env.and_(have[v], env.eq(lo, env.vconst(v))) for v in range(V)]), label + "least value of a field")
            env.check(env.or_(*[env.and_(have[v], env.eq(hi, env.vconst(v))) for v in range(V)]), label + "greatest value of a field")
        total = sum(len(doc[f][1]) for _, doc in docs if f in doc and doc[f][0] in seqs) if positions else 0
        env.check(env.same(p, total), label + "recorded positions of a field")
    for f in rows:
        env.check(f in fields_of(docs), label + "only fields of the corpus are summarised")


def check_positions(env, db, docs, ids, V, label=""):
    """recorded positions reconstruct every token sequence"""
    pm = list(db.execute("select field, first_doc_id, last_doc_id, docs_count, doc_ids, doc_boundaries from position_doc_map"))
    pi = list(
        db.execute(
            "select field, value, first_doc_id, position_count, positions, pi.feature_id "
            "from position_index pi inner join inverted_index ii on ii.feature_id = pi.feature_id"
        )
    )
    n = list(db.execute("select count(*) from position_index"))[0][0]
    env.check(env.same(n, len(pi)), label + "positions belong to features")
    by_id = {d: k for k, d in ids.items()}
    content = dict(docs)
    for f in fields_of(docs):
        seen = []
        blocks = sorted((r for r in pm if r[0] == f), key=lambda r: r[1])
        for _, first, last, n, dids, bounds in blocks:
            dids, bounds = sorted(dids), sorted(bounds)
            env.check(env.same(n, len(dids)), label + "number of documents of a block")
            env.check(len(bounds) == len(dids) + 1 and bounds[:1] == [0], label + "one boundary for each document of a block")
            env.check(all(first <= d <= last for d in dids), label + "documents of a block are within it")
            rows = [r for r in pi if r[0] == f and r[2] == first]
            used = 0
            for i, d in enumerate(dids):
                if d not in by_id or i + 1 >= len(bounds):
                    env.fail(label + "positions belong to documents")
                    continue
                kind, toks = content[by_id[d]].get(f, ("set", []))
                toks = toks if kind in SEQ else []
                seen.append(d)
                lo, hi = bounds[i], bounds[i + 1]
                env.check(hi - lo == len(toks), label + "a document spans as many positions as it has tokens")
                for j, t in enumerate(toks):
                    for _, value, _, _, ps, _ in rows:
                        env.check(env.iff(env.bit(ps, lo + j), env.eq(value, t)), label + "a position holds exactly the token of the document")
                    env.check(env.or_(*[env.bit(r[4], lo + j) for r in rows]), label + "every token has a position")
                used = hi
            for r in rows:
                env.check(env.same(r[3], K.card(env, r[4])), label + "position count of a feature")
                env.check(all(p < used for p in K.sorted_positions(env, r[4])) or env.and_(
                    *[env.not_(env.bit(r[4], p)) for p in K.sorted_positions(env, r[4]) if p >= used]), label + "no position beyond the documents")
        want = [ids[k] for k, doc in docs if f in doc and doc[f][0] in SEQ and doc[f][1]]
        env.check(sorted(seen) == sorted(want), label + "exactly the documents with tokens have positions")
        firsts = set(b[1] for b in blocks)
        env.check(all(r[2] in firsts for r in pi if r[0] == f), label + "positions belong to a block")
    names = fields_of(docs)
    env.check(all(r[0] in names for r in pm) and all(r[0] in names for r in pi), label + "only fields of the corpus have positions")
