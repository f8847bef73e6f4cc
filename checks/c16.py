"""C16: query results carry the right document, key and id."""
import csv
import io
import itertools
import os

from engine import hr
from . import common as K
from .c15 import Draws

BOUNDS = {
    "quick": "every query over 3 documents, every relation between document ids and keys, every sample size and draw; exported samples "
    "over 2-3 clusters and 3 documents; 7-1103 documents of which 3 may or may not be in the query, 14 clusters; also with an index object used before its documents or its model changed",
    "thorough": "4 documents; 3 clusters; keys that are numbers",
}


# keys that are texts but look like numbers
NAMES = {"digits": ["10", "020", "3.0", "-1"]}


def build(env, n, numbers=False, perm=None, history=False):
    """documents whose keys are in an arbitrary order"""
    if n > 6:
        perm = [(11 * d + 3) % n for d in range(n)]
        assert len(set(perm)) == n
    names = NAMES[numbers] if type(numbers) is str else [10 * (i + 1) for i in range(n)] if numbers else ["k%d" % i for i in range(n)]
    left = list(names)
    keys = [left.pop(env.pick("key of %d" % d, len(left))) if perm is None else names[perm[d]] for d in range(n)]
    corpus = K.Stub([(k, {"body": "body of %s" % k, "other": "x"}) for k in names])
    idx = K.new_index(env, corpus=corpus)
    if history:
        # the index object was used when other documents were there, or the same
        # ones in another order
        old = list(reversed(names)) if history == "order" else ["old %d" % i for i in range(n + 1)]
        ids = list(range(n))
        idx.corpus = K.Stub([(k, {"body": "old body of %s" % k}) for k in old])
        idx.index(doc_batch_size=2)
        for q in [hr.BitMap([i]) for i in range(len(old))] + [hr.BitMap(range(len(old)))]:
            list(idx.docs(q))
            list(idx.render_docs_html(q))
            list(idx.render_docs_table(q))
            list(idx.convert_query_to_keys(q)).clear()
        idx.corpus = K.Stub([(k, {"body": "body of %s" % k}) for k in keys])
        idx.index(doc_batch_size=2)
        env.reach("reindexed")
        return idx, ids, dict(zip(ids, keys))
    ids = [2 * d for d in range(n)]
    for d, k in zip(ids, keys):
        idx.db.execute("insert into doc_key(doc_id, doc_key) values(?, ?)", (d, k))
    return idx, ids, dict(zip(ids, keys))


def query_of(env, name, ids, settled=False):
    # of many documents, three may or may not be there
    some = () if settled else ids if len(ids) <= 6 else (ids[0], ids[4], ids[-1])
    b = {d: env.bool("%s %d" % (name, d)) if d in some else (d + 3 * len(name) + ord(name[-1])) % 4 != 0 for d in ids}
    terms = [b.get(d, False) for d in range(max(ids) + 1)]
    return env.mkbits(terms), b


def sample_size(env, n):
    if n <= 6:
        return env.pick("size", n + 1)
    env.draws = Draws(env, 1 if n < 100 else 0)
    return (1, n // 3, n + 1)[env.pick("size", 3)]


def run_docs(env, n, how, numbers=False, history=False):
    idx, ids, keys = build(env, n, numbers, history=history)
    q, b = query_of(env, "query", ids)
    before = q.copy()
    if how == "docs":
        rows = [(i, k, doc["body"]) for i, k, doc in idx.docs(q)]
    elif how == "html":
        rows = [(i, k, h[1:-1]) for i, k, h in idx.render_docs_html(q)]
    elif how == "keys":
        rows = [(i, k, "body of %s" % k) for k, i in idx.convert_query_to_keys(q).items()]
    elif how == "html sample":
        size = sample_size(env, n)
        rows = [(i, k, h[1:-1]) for i, k, h in idx.render_docs_html(q, random_sample_size=size)]
    else:
        size = sample_size(env, n) if how == "table sample" else None
        got = list(idx.render_docs_table(q, random_sample_size=size))
        inv = {k: d for d, k in keys.items()}
        rows = [(inv.get(k), k, doc["body"]) for k, doc in got]
    env.check(env.same(before, q), "the query is not modified")
    seen = [r[0] for r in rows]
    env.check(len(set(seen)) == len(seen), "no document is returned twice")
    for i, k, body in rows:
        env.check(i in keys and keys[i] == k, "id and key belong to the same document")
        env.check(body == "body of %s" % k, "the content belongs to the key")
        env.check(i in b and b[i], "nothing outside the query is returned")
    if "sample" in how:
        total = env.count(list(b.values()))
        env.check(env.eq(len(rows), env.ite(total < size, total, size)), "as many as requested")
    else:
        for d in ids:
            env.check(env.iff(b[d], d in seen), "every document of the query is returned")
    if rows:
        env.reach("returned")
    env.observe("rows", sorted(list(r) for r in rows))


def run_export(env, n, clusters, perm=None, history=False):
    idx, ids, keys = build(env, n, perm=perm, history=history)
    samples, where, sb, wb = {}, {}, {}, {}
    for c in clusters:
        samples[c], sb[c] = query_of(env, "sample %d" % c, ids, settled=c not in clusters[:1] and n > 6)
        where[c], wb[c] = query_of(env, "where %d" % c, ids, settled=c != clusters[-1] and n > 6)
    path = os.path.join(env.tmpdir(), "out.csv")
    idx.export_document_sample(samples, where, path)
    with open(path, newline="", encoding="utf-8") as f:
        rows = list(csv.DictReader(f))
    inv = {k: d for d, k in keys.items()}
    want = 0
    for c in clusters:
        mine = [r for r in rows if r["sampled_cluster"] == str(c)]
        for d in ids:
            of = [r for r in mine if r["doc_key"] == keys[d]]
            env.check(env.eq(len(of), env.ite(sb[c][d], 1, 0)), "one row per sampled document")
            for r in of:
                env.check(r["body"] == "body of %s" % keys[d], "the content belongs to the key")
                for o in clusters:
                    flag = r.get("cluster_%d" % o)
                    env.check(env.iff(flag == "1", wb[o][d]), "membership flags belong to the document")
                    env.check(flag in ("1", ""), "flags are set or empty")
                env.reach("exported")
        want += len([r for r in mine if r["doc_key"] in inv])
    env.check(want == len(rows), "no other rows")
    env.observe("rows", sorted(sorted([k, v] for k, v in r.items()) for r in rows))


SCENARIOS = {
    "history": {
        "run": run_docs,
        "quick": [dict(n=2, how=h, history=o) for h in ("docs", "html", "keys", "table", "table sample") for o in ("order", "other")],
        "thorough": [dict(n=3, how=h, history=o) for h in ("docs", "html", "keys", "table", "table sample") for o in ("order", "other")],
        "reach": ["returned", "reindexed"],
    },
    "export history": {
        "run": run_export,
        "quick": [dict(n=2, clusters=[3], history="order")],
        "thorough": [dict(n=2, clusters=[3, 5], history=o) for o in ("order", "other")],
        "reach": ["exported", "reindexed"],
    },
    "docs": {
        "run": run_docs,
        "quick": [dict(n=3, how=h) for h in ("docs", "html", "keys", "table")]
        + [dict(n=2, how=h, numbers=True) for h in ("docs", "html sample", "table sample")]
        + [dict(n=3, how=h, numbers="digits") for h in ("docs", "html", "keys", "table")]
        + [dict(n=2, how=h, numbers="digits") for h in ("html sample", "table sample")]
        + [dict(n=40, how=h) for h in ("docs", "html", "keys", "table", "html sample", "table sample")]
        + [dict(n=n, how=h) for n in (520, 1103) for h in ("docs", "html", "keys", "table")]
        + [dict(n=140, how=h) for h in ("html sample", "table sample")],
        "thorough": [
            dict(n=4, how=h, numbers=m)
            for h in ("docs", "html", "keys", "table", "html sample", "table sample")
            for m in (False, True)
        ],
        "reach": ["returned"],
    },
    "export": {
        "run": run_export,
        "quick": [dict(n=2, clusters=[3, 7]), dict(n=3, clusters=[4], perm=[2, 0, 1]), dict(n=30, clusters=[2, 10]), dict(n=520, clusters=[2, 10]), dict(n=7, clusters=list(range(0, 14)))],
        "thorough": [dict(n=2, clusters=[3, 7, 10]), dict(n=3, clusters=[4, 2], perm=[2, 0, 1]), dict(n=4, clusters=[4])],
        "reach": ["exported"],
    },
}
