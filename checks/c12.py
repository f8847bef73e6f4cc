"""C12: passage search reports only and all genuine passages."""
from engine import hr
from . import common as K
from . import positions as P

BOUNDS = {
    "quick": "up to 5 token positions in 1-4 documents over 1-2 batches, every token sequence over 2-3 query values and a rest, "
    "one, two or three clauses (overlapping or not), windows 0-5; 60-110 positions in up to 26 documents of which 2 or 3 are arbitrary, windows up to 60; features of two fields in one query, 3-129 positions in each; also with an index object used before its documents or its model changed",
    "thorough": "up to 7 token positions in up to 4 documents over up to 3 batches",
}


def spec(env, toks, clauses, w):
    """passages of one document for one or two clauses: maximal runs of matching
    occurrences at most the window apart.  Forks on the tokens."""
    n = len(toks)
    occ = [[bool(env.or_(*[env.eq(t, v) for v in c])) for t in toks] for c in clauses]
    match = [
        i
        for i in range(n)
        if any(o[i] for o in occ)
        and all(any(o[j] for j in range(max(0, i - w), min(n, i + w + 1))) for o in occ)
    ]
    out = []
    for i in match:
        if out and i - out[-1][1] <= w:
            out[-1][1] = i
            out[-1][2] += 1
        else:
            out.append([i, i, 1])
    return [tuple(x) for x in out], occ, match


def run(env, layout, values, clauses, windows, as_keys=False, free=None):
    idx, fids, docs = P.build(env, layout, values, free=free)
    env.schedule = "last"
    w = windows[env.pick("window", len(windows))]
    query = [[("text", env.vconst(v)) if as_keys else fids[v] for v in c] for c in clauses]
    got = idx.score_passages_dnf(query, w)
    env.check(all(d in dict(docs) for d in got), "only documents of the index are reported")
    longest = max(len(t) for _, t in docs)
    for d, toks in docs:
        want, occ, match = spec(env, toks, clauses, w)
        have = [tuple(p) for p in got[d]] if d in got else []
        env.check(all(p[0] == "text" for p in have), "passages name their field")
        have = sorted((p[1], p[2], p[3]) for p in have)
        if len(clauses) <= 2:
            env.check(have == want, "exactly the genuine passages of the document")
        else:
            for s, e, n in have:
                ok = 0 <= s <= e < len(toks) and s in match and e in match
                env.check(ok, "passages start and end at matching occurrences of the document")
                env.check(n <= sum(1 for m in match if s <= m <= e), "number of occurrences in a passage")
        every = all(any(o) for o in occ)
        if w >= longest:
            env.check(bool(have) == every, "a window as long as the documents finds exactly those with every clause")
            if every:
                env.check(len(have) == 1, "one passage")
                m = [i for i in range(len(toks)) if any(o[i] for o in occ)]
                env.check(have == [(m[0], m[-1], len(m))], "the passage covers every occurrence")
        elif have:
            env.check(every, "a reported document contains every clause")
        if have:
            env.reach("passage")
        elif every:
            env.reach("too far apart")
    env.observe("passages", {d: sorted(tuple(p) for p in v) for d, v in got.items() if v})


def run_fields(env, layout, values, clauses, windows, free=None):
    """every field is searched on its own, for the features of that field"""
    idx, fids, docs, tfids, tdocs = P.build(env, layout, values, extra=("Text", 2), free=free)
    K.add_features(env, idx, [(200, "tag", env.vconst(0), hr.BitMap(range(len(docs))))])
    env.schedule = "order" if free is None else "last"
    w = windows[env.pick("window", len(windows))]
    ids = {"text": fids, "Text": tfids, "tag": [200]}
    query = [[ids[f][v] if f == "text" else (f, env.vconst(v)) for f, v in c] for c in clauses]
    got = idx.score_passages_dnf(query, w)
    env.check(all(d in dict(docs) for d in got), "only documents of the index are reported")
    for field, content in (("text", docs), ("Text", tdocs)):
        cs = [[v for f, v in c if f == field] for c in clauses]
        cs = [c for c in cs if c]
        for d, toks in content:
            want = spec(env, toks, cs, w)[0] if cs else []
            have = sorted((p[1], p[2], p[3]) for p in (got[d] if d in got else []) if p[0] == field)
            env.check(have == want, "exactly the genuine passages of the field")
            if have:
                env.reach("passage in " + field)
            if len(have) > 10:
                env.reach("many passages")
    for d in got:
        env.check(all(p[0] in ("text", "Text") for p in got[d]), "passages name their field")
    env.observe("passages", {d: sorted(tuple(p) for p in v) for d, v in got.items() if v})


SCENARIOS = {
    "history": {
        "run": P.aged(run),
        "quick": [
            dict(history=(3, True), layout=[[2], [1]], values=2, clauses=[[0], [1]], windows=[1]),
            dict(history=(1, True), layout=[[2, 1]], values=2, clauses=[[0], [1]], windows=[1]),
            dict(history=(2, False), layout=[[2, 1]], values=2, clauses=[[0], [1]], windows=[1]),
        ],
        "thorough": [
            dict(history=h, layout=l, values=2, clauses=[[0], [1]], windows=[1, 3])
            for h in ((3, True), (1, True), (2, False))
            for l in ([[2], [1]], [[2, 2]], [[1], [1], [2]])
        ],
        "reach": ["passage", "reindexed"],
    },
    "fields": {
        "run": run_fields,
        "quick": [
            dict(layout=[[2, 1]], values=2, clauses=[[("text", 0), ("Text", 1)], [("Text", 0), ("tag", 0)]], windows=[0, 1]),
            dict(layout=[[2], [1]], values=1, clauses=[[("text", 0)], [("Text", 0)]], windows=[1]),
            dict(layout=[[70], [9, 50]], values=2, clauses=[[("text", 0), ("Text", 1)], [("Text", 0), ("text", 1)]], windows=[1, 4], free=[(0, 20), (2, 4)]),
            dict(layout=[[70], [9, 50]], values=2, clauses=[[("text", 0), ("Text", 1)]], windows=[0, 1], free=[(0, 20)]),
        ],
        "thorough": [
            dict(layout=l, values=2, clauses=c, windows=[0, 1, 2])
            for l in ([[3], [1]], [[1, 2]], [[3]])
            for c in ([[("text", 0), ("Text", 1)], [("Text", 0), ("text", 1)]], [[("text", 0), ("text", 1)], [("Text", 0)]], [[("Text", 1), ("tag", 0)]])
        ],
        "reach": ["passage in text", "passage in Text", "many passages"],
    },
    "passages": {
        "run": run,
        "quick": [
            dict(layout=[[2, 3]], values=2, clauses=[[0], [1]], windows=[1, 2, 5]),
            dict(layout=[[4]], values=2, clauses=[[0], [1]], windows=[0, 1, 2]),
            dict(layout=[[2], [2, 0, 1]], values=2, clauses=[[0], [1]], windows=[1, 3]),
            dict(layout=[[2, 2]], values=2, clauses=[[0, 1]], windows=[0, 1, 3], as_keys=True),
            dict(layout=[[1, 1, 1, 1]], values=1, clauses=[[0]], windows=[1]),
            dict(layout=[[2, 1, 2]], values=2, clauses=[[0], [1]], windows=[1]),
            dict(layout=[[1, 3]], values=2, clauses=[[0, 1], [1]], windows=[1, 3]),
            dict(layout=[[3, 1]], values=3, clauses=[[0], [1], [2]], windows=[1, 3]),
        ],
        "thorough": [
            dict(layout=l, values=2, clauses=c, windows=[w])
            for l in ([[3, 3]], [[6]], [[2, 2, 2]], [[3], [2, 1]], [[1, 2], [0, 3], [0]], [[2, 4, 1]])
            for c in ([[0], [1]], [[0, 1]], [[0, 1], [1]])
            for w in (0, 1, 2, 3, 6)
        ]
        + [dict(layout=l, values=3, clauses=[[0], [1], [2]], windows=[1, 2, 5]) for l in ([[5]], [[4, 1]], [[2, 3]], [[3], [2]])],
        "reach": ["passage", "too far apart"],
    },
    "large": {
        "run": run,
        "quick": [
            dict(layout=[[40, 3, 30]], values=2, clauses=[[0], [1]], windows=[2, 15, 24, 40], free=[(0, 20), (2, 4)]),
            dict(layout=[[20], [35], [1, 25]], values=3, clauses=[[0, 2], [1]], windows=[10, 20, 36], free=[(1, 0), (3, 24)]),
            dict(layout=[[6] * 12, [3] * 14], values=2, clauses=[[0], [1]], windows=[1, 30], free=[(0, 5), (11, 0), (12, 0)]),
            dict(layout=[[60]], values=3, clauses=[[0], [1], [2]], windows=[5, 12, 60], free=[(0, 0), (0, 59)]),
        ],
        "thorough": [
            dict(layout=l, values=3, clauses=c, windows=w, free=[(0, 5), (1, 0), (2, 7)])
            for l in ([[80, 9, 50]], [[30], [45], [8, 70]], [[10] * 40, [9] * 30])
            for c in ([[0], [1]], [[0, 2], [1]], [[0], [1], [2]], [[0, 1, 2]])
            for w in ([1, 3], [9, 17], [31, 90])
        ],
        "reach": ["passage", "too far apart"],
    },
}
