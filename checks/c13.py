"""C13: window expansion and collocation counts respect documents and fields."""
import itertools

from engine import hr
from . import common as K
from . import positions as P

BOUNDS = {
    "quick": "window expansion: every set of positions in every layout of 5 positions into documents, windows 0-6; collocations: "
    "4 token positions (70-110 of which 2 are arbitrary, windows up to 40) in documents over one or two batches, 2 features and a rest, windows 0-2, a second positional field, any "
    "completion order; also with an index object used before its documents or its model changed",
    "thorough": "window expansion over 7 positions, windows 0-8; collocations over 5-6 positions and up to 3 batches",
}


def layouts(n):
    if n == 0:
        return [[]]
    return [[k] + r for k in range(1, n + 1) for r in layouts(n - k)]


def run_expand(env, n, windows, ls=None, taken=()):
    ls = ls or layouts(n)
    lens = ls[env.pick("layout", len(ls))]
    w = windows[env.pick("window", len(windows))]
    positions = env.bits("pos", n)
    if taken:
        # of a larger index, the positions from n on are settled
        positions = positions | hr.BitMap(taken)
        n = sum(lens)
    bounds = [0]
    for k in lens:
        bounds.append(bounds[-1] + k)
    before = positions.copy()
    res = hr.utilities.expand_positions_window(positions, hr.BitMap(bounds), w)
    env.check(env.same(before, positions), "the given positions are not modified")
    want = []
    for a, b in zip(bounds, bounds[1:]):
        for p in range(a, b):
            want.append(env.or_(*[env.bit(before, q) for q in range(a, b) if abs(p - q) <= w]))
    env.check(env.same(res, env.mkbits(want)), "exactly the positions of the same document within the window")
    if len(lens) > 1:
        env.reach("several documents")
    env.observe("window", res)


def run_colloc(env, layout, windows, values, query, second, free=None):
    r = P.build(env, layout, values, extra=("Text", 1) if second else None, free=free)
    idx, fids, docs = r[:3]
    env.schedule = "free" if free is None else "last"
    w = windows[env.pick("window", len(windows))]
    features = [fids[i] for i in query]
    counts, nq, nw = idx.count_collocations("text", features, w)
    inq = lambda t: env.or_(*[env.eq(t, v) for v in query])
    window = {}
    for d, toks in docs:
        for i, t in enumerate(toks):
            window[d, i] = env.or_(*[inq(u) for j, u in enumerate(toks) if abs(i - j) <= w])
    for v, f in enumerate(fids):
        if v in query:
            env.check(f not in counts, "query features are not their own collocations")
            continue
        near = env.count([env.and_(env.eq(t, v), window[d, i]) for d, toks in docs for i, t in enumerate(toks)])
        total = env.count([env.eq(t, v) for d, toks in docs for t in toks])
        got = counts[f] if f in counts else [0, 0]
        env.check(env.same(got[0], near), "occurrences inside the windows")
        env.check(env.same(got[1], total), "occurrences of the feature")
        if f in counts:
            env.reach("counted")
    env.check(all(f in fids for f in counts), "features of other fields are never counted")
    env.check(env.same(nq, env.count([inq(t) for _, toks in docs for t in toks])), "total query positions")
    env.check(env.same(nw, env.count(list(window.values()))), "total window positions")
    env.observe("counts", {k: tuple(v) for k, v in counts.items()})


SCENARIOS = {
    "history": {
        "run": P.aged(run_colloc),
        "quick": [
            dict(history=(3, True), layout=[[2], [1]], windows=[1], values=1, query=[0], second=False),
            dict(history=(1, True), layout=[[2, 1]], windows=[1], values=1, query=[0], second=True),
            dict(history=(2, False), layout=[[2, 1]], windows=[1], values=1, query=[0], second=False),
        ],
        "thorough": [
            dict(history=h, layout=l, windows=[1], values=2, query=[0], second=s)
            for h in ((3, True), (1, True), (2, False))
            for l in ([[2], [1]], [[2, 2]], [[1], [1], [2]])
            for s in (False, True)
        ],
        "reach": ["counted", "reindexed"],
    },
    "expand": {
        "run": run_expand,
        "quick": [
            dict(n=5, windows=[0, 1, 2, 3, 4, 6]),
            dict(n=3, windows=[7, 15, 30], ls=[[60], [3, 57], [2, 14, 44], [16, 44]], taken=[12, 17, 40, 55, 59]),
            dict(n=3, windows=[26, 40, 200], ls=[[300], [3, 297], [150, 150]], taken=[120]),
        ],
        "thorough": [dict(n=7, windows=[w]) for w in range(9)],
        "reach": ["several documents"],
    },
    "large": {
        "run": run_colloc,
        "quick": [
            dict(layout=[[40, 3, 30]], windows=[2, 15, 40], values=3, query=[0], second=False, free=[(0, 20), (2, 4)]),
            dict(layout=[[20], [35], [1, 25]], windows=[11, 20], values=4, query=[0, 1], second=True, free=[(1, 0), (3, 24)]),
            dict(layout=[[6] * 12, [3] * 14], windows=[1, 12], values=12, query=list(range(11)), second=False, free=[(0, 5), (12, 0)]),
        ],
        "thorough": [
            dict(layout=l, windows=w, values=4, query=q, second=True, free=[(0, 5), (1, 0), (2, 7)])
            for l in ([[80, 9, 50]], [[30], [45], [8, 70]], [[10] * 40, [9] * 30])
            for w in ([1, 3], [9, 17], [31, 90])
            for q in ([0], [0, 1, 2])
        ],
        "reach": ["counted"],
    },
    "collocations": {
        "run": run_colloc,
        "quick": [
            dict(layout=[[2, 2]], windows=[1, 2], values=2, query=[0], second=False),
            dict(layout=[[1, 3]], windows=[2], values=2, query=[0, 1], second=False),
            dict(layout=[[2], [2]], windows=[0, 1], values=1, query=[0], second=True),
        ],
        "thorough": [
            dict(layout=l, windows=[0, 1, 2, 3], values=2, query=q, second=s)
            for l in ([[2, 3]], [[1, 2, 2]], [[3], [2]], [[2], [1, 2]], [[0, 2], [0, 0], [2]], [[2, 0, 2]])
            for q in ([0], [0, 1])
            for s in (False, True)
        ],
        "reach": ["counted"],
    },
}
