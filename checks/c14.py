"""C14: concordances and rendered passages show the right words."""
from engine import hr
from . import common as K
from .refine import Draws as RealDraws

BOUNDS = {
    "quick": "2-3 documents of up to 4 tokens, every token sequence over 2 feature values and a rest, windows 0-3 and larger; "
    "passages with every start and end in documents of 4 tokens, overhangs 0-5, batches of 1-3 documents in any completion order; documents of up to 60 tokens of which 2 or 3 are arbitrary, "
    "windows up to 60, up to 14 documents; samples of 0-30 of 3-23 documents",
    "thorough": "documents of up to 6 tokens, 3 feature values, 4 documents",
}


class Draws(RealDraws):
    """the first n choices and m real numbers are arbitrary"""

    def __init__(self, env, n, m=0):
        RealDraws.__init__(self, env, n, m)


class Joiner:
    """stands for the join character: keeps the words apart"""

    @staticmethod
    def join(words):
        return tuple(words)


def build(env, lens, values, keys, tags=True, free=None):
    docs = []

    def token(d, i):
        if free is None or [d, i] in free:
            return env.val("tok%d.%d" % (d, i), values + 1)
        h = (d * 31 + i * i * 17 + i * 5) % 13
        return env.vconst(h if h < values else values)

    tags_free = free is None
    free = None if free is None else [list(x) for x in free]
    for d, n in enumerate(lens):
        doc = {}
        if n is not None:
            doc["text"] = [token(d, i) for i in range(n)]
        if tags:
            has = [env.bool("tag%d.%d" % (d, v)) if tags_free else (d + v) % 3 == 0 for v in range(2)]
            doc["Text"] = set(env.vconst(v) for v in range(2) if has[v])
        docs.append((keys[d], doc))
    idx = K.new_index(env, corpus=K.Stub(docs))
    K.add_docs(env, idx, keys)
    feats = [(v + 1, "text", env.vconst(v), hr.BitMap()) for v in range(values)]
    feats += [(v + 51, "Text", env.vconst(v), hr.BitMap()) for v in range(2)]
    K.add_features(env, idx, feats)
    return idx, docs


def sampled(env, size, n):
    """the choice of documents does not matter much, those chosen do"""
    env.draws = Draws(env, 1)
    return size[env.pick("size", len(size))]


def run_windows(env, lens, values, windows, strings, whole=False, free=None, size=None):
    n = len(lens)
    keys = ["k%d" % (n - d) for d in range(n)]
    idx, docs = build(env, lens, values, keys, tags=not strings, free=free)
    query = hr.BitMap(range(n)) if whole else env.bits("query", n if free is None else 2)
    if free is not None and not whole:
        query = query | hr.BitMap(range(3, n))
    w = windows[env.pick("window", len(windows))]
    # features by id and by key, one of them twice
    features = [("text", env.vconst(0))] + [v + 1 for v in range(1, values)] + [1]
    if not strings:
        features += [51, ("Text", env.vconst(1))]
    kw = {}
    if size:
        kw["random_sample_size"] = sampled(env, size, n)
    if strings:
        rows = list(idx.concordances(query, features, w, join_character=Joiner(), **kw))
    else:
        rows = list(idx.extract_matching_feature_windows(query, features, w, **kw))
    seen = [d for _, d, _ in rows]
    if size:
        env.check(len(set(seen)) == len(seen), "no document twice")
        for d in seen:
            env.check(env.bit(query, d), "only documents of the query")
        total = K.card(env, query)
        k = kw["random_sample_size"]
        env.check(env.eq(len(seen), env.ite(total < k, total, k)), "as many documents as requested")
        env.reach("sampled")
    for d in range(n):
        if not size:
            env.check(env.eq(seen.count(d), env.ite(env.bit(query, d), 1, 0)), "every document of the query exactly once")
    env.check(all(d in range(n) for d in seen), "only documents of the query")
    for key, d, got in rows:
        if d not in range(n):
            continue
        env.check(key == docs[d][0], "the key belongs to the document")
        doc = docs[d][1]
        toks = doc.get("text", [])
        have = got["text"] if "text" in got else {}
        total = 0
        for v in range(values):
            val = env.vconst(v)
            want = []
            for i, t in enumerate(toks):
                if t == val:
                    want.append(tuple(toks[max(0, i - w) : i + w + 1]))
            h = [tuple(x) for x in have[val]] if val in have else []
            env.check(env.same(h, want), "one window per occurrence, in order, clipped to the document")
            env.check((val in have) == bool(want), "features that do not occur are not reported")
            if want:
                env.reach("occurs")
                total += 1
        env.check(len(have) == total, "nothing else is reported")
        if not strings:
            tags = got["Text"] if "Text" in got else {}
            env.check(env.same(set(tags), doc["Text"]), "set-valued features are reported as matched")
            env.check(all(not list(x) for x in tags.values()), "set-valued features have no windows")
    env.observe("rows", [[k, d, g] for k, d, g in sorted(rows, key=lambda r: r[1])])


def run_passages(env, lens, passages, overhangs, batch, schedule="free", free=None, size=None):
    n = len(lens)
    keys = ["k%d" % (n - d) for d in range(n)]
    docs = []
    for d, m in enumerate(lens):
        docs.append((keys[d], {"text": ["w%d_%d" % (d, i) for i in range(m)], "Text": {"t%d" % d}, "name": "x"}))
    idx = K.new_index(env, corpus=K.Stub(docs))
    K.add_docs(env, idx, keys)
    scored, want = {}, {}
    over = overhangs[env.pick("overhang", len(overhangs))]
    for d in reversed(range(n)):
        ps = []
        for p in range(passages[d]):
            if free is None:
                s = env.pick("start%d.%d" % (d, p), lens[d])
                e = s + env.pick("len%d.%d" % (d, p), lens[d] - s)
            else:
                s = (7 * d + 5 * p) % lens[d] if (d, p) != (0, 0) else env.pick("start", lens[d])
                e = min(lens[d] - 1, s + (3 * d + 11 * p) % 30)
            ps.append(("text", s, e, 1))
        if passages[d]:
            scored[d] = ps
            toks = docs[d][1]["text"]
            want[d] = [" ".join(toks[max(0, s - over) : e + over + 1]) for _, s, e, _ in ps]
    env.schedule = schedule
    if size:
        k = size[env.pick("size", len(size))]
        # which documents are chosen is free
        env.draws = Draws(env, 0, 4 if n < 6 else 1)
        rows = list(idx.render_passages_table(scored, passage_overhang=over, batch_size=batch, random_sample_size=k))
        env.check(len(rows) == min(k, len(scored)), "as many documents as requested")
        env.check(len(set(r[0] for r in rows)) == len(rows), "no document twice")
        env.reach("sampled")
    else:
        rows = list(idx.render_passages_table(scored, passage_overhang=over, batch_size=batch))
        env.check(sorted(r[0] for r in rows) == sorted(scored), "every document with passages is rendered exactly once")
    for d, key, fields in rows:
        if d not in scored:
            env.fail("only documents with passages are rendered")
            continue
        env.check(key == keys[d], "the key belongs to the document")
        env.check(sorted(fields["text"]) == sorted(want[d]), "every passage with its overhang exactly once")
        env.check(fields["Text"] == {"t%d" % d}, "set-valued fields of the same document")
    env.reach("rendered")
    env.observe("rows", sorted([d, k, sorted(f["text"])] for d, k, f in rows))


SCENARIOS = {
    "sampled windows": {
        "run": run_windows,
        "quick": [
            dict(lens=[2, 1, 2], values=1, windows=[1], strings=False, free=[[0, 0]], size=[0, 1, 2, 3, 4]),
            dict(lens=[2, 1, 2], values=1, windows=[1], strings=True, free=[[0, 1]], size=[0, 1, 2, 4]),
            dict(lens=[5] * 23, values=2, windows=[0, 3], strings=False, free=[], size=[0, 1, 11, 21, 24]),
        ],
        "thorough": [dict(lens=[2, 1, 2, 3], values=1, windows=[1], strings=s, free=[[0, 0]], size=[0, 1, 2, 3, 4, 5]) for s in (False, True)],
        "reach": ["sampled"],
    },
    "sampled passages": {
        "run": run_passages,
        "quick": [
            dict(lens=[2, 2, 1], passages=[1, 2, 1], overhangs=[1], batch=b, size=[0, 1, 2, 3, 4], free=[]) for b in (1, 2, 5)
        ]
        + [dict(lens=[20] * 23, passages=[1] * 23, overhangs=[3], batch=4, size=[0, 1, 11, 23, 30], free=[], schedule="last")],
        "thorough": [dict(lens=[2, 2, 1, 3], passages=[1, 2, 1, 1], overhangs=[0, 1], batch=b, size=[0, 1, 2, 3, 4, 5], free=[]) for b in (1, 2, 3)],
        "reach": ["sampled"],
    },
    "windows": {
        "run": run_windows,
        "quick": [
            dict(lens=[3, None], values=2, windows=[0, 1, 5], strings=False),
            dict(lens=[4, 0], values=1, windows=[1, 2], strings=False, whole=True),
            dict(lens=[2, 2], values=1, windows=[0, 1], strings=True),
        ],
        "thorough": [
            dict(lens=l, values=v, windows=[0, 1, 2, 4], strings=s)
            for l in ([4, 1], [2, 2, 1], [5])
            for v in (1, 2)
            for s in (False, True)
        ],
        "reach": ["occurs"],
    },
    "large": {
        "run": run_windows,
        "quick": [
            dict(lens=[50, 7, None, 33], values=2, windows=[8, 15, 30, 60], strings=False, free=[[0, 25], [3, 0]]),
            dict(lens=[3] * 14, values=11, windows=[0, 2], strings=False, free=[[13, 2]]),
            dict(lens=[41, 5], values=3, windows=[5, 11, 25], strings=True, whole=True, free=[[0, 12], [1, 0]]),
        ],
        "thorough": [
            dict(lens=l, values=v, windows=[2, 9, 31, 70], strings=s, free=[[0, 2], [1, 4], [2, 0]])
            for l in ([120, 30, 1], [12] * 30)
            for v in (1, 9)
            for s in (False, True)
        ],
        "reach": ["occurs"],
    },
    "many passages": {
        "run": run_passages,
        "quick": [
            dict(lens=[20] * 13, passages=[1] * 13, overhangs=[0, 7, 15], batch=5, schedule="last", free=[]),
            dict(lens=[60, 40], passages=[9, 4], overhangs=[3, 20, 100], batch=1000, schedule="last", free=[]),
        ],
        "thorough": [
            dict(lens=l, passages=p, overhangs=[0, 4, 20, 90], batch=b, schedule="last", free=[])
            for l, p in (([30] * 40, [2] * 40), ([150, 20, 90], [30, 1, 12]))
            for b in (1, 7, 1000)
        ],
        "reach": ["rendered"],
    },
    "passages": {
        "run": run_passages,
        "quick": [
            dict(lens=[4, 2], passages=[1, 1], overhangs=[0, 1, 5], batch=1),
            dict(lens=[3, 2, 1], passages=[2, 1, 1], overhangs=[1], batch=2),
            dict(lens=[1, 1, 2], passages=[1, 0, 1], overhangs=[0, 2], batch=3),
        ],
        "thorough": [
            dict(lens=l, passages=p, overhangs=[0, 1, 2, 6], batch=b)
            for l, p in (([6, 2], [1, 1]), ([4, 3], [2, 1]), ([2, 2, 1, 1], [1, 1, 1, 1]))
            for b in (1, 2, 3)
        ],
        "reach": ["rendered"],
    },
}
