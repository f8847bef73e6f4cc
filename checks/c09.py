"""C09: refinement completes and reaches the requested number of clusters."""
from . import refine

BOUNDS = {
    "quick": "20 shapes of models of 3-4 features in 2-4 clusters: every pin set, selections, targets below, at and above the number of "
    "clusters, group testing; arbitrary similarity scores; 1-2 iterations; the first 0-2 choices and 0-3 coin flips of the random "
    "stream arbitrary; with settled scores, 5-13 clusters, every target up to 3-13, 1-7 iterations, ordinary and large tolerances; splitting up to 30 settled features into up to 20 clusters",
    "thorough": "over 250 such shapes with up to 5 features, up to 3 iterations",
}
ASSUMPTIONS = [
    "Similarity scores are arbitrary numbers (the real scoring function, decided by C10, is replaced by any function of "
    "cluster, group and feature that scores what it is asked to score)."
]


def run(env, **kw):
    refine.run(env, "C09", **kw)


def run_counts(env, C, per, targets, iterations, group=0, pins=None, tolerance=0.05):
    """how many clusters remain does not depend on the scores"""
    t = env.pick("target", targets) + 1
    n = env.pick("iterations", iterations) + 1
    assign = [c + 1 for c in range(C) for _ in range(per)]
    refine.run(
        env, "C09", assign, C, target=t, iterations=n, group=group, pins=pins, cpins=None, draws=(1, 1), bits=[1] * len(assign), settled=True,
        tolerance=tolerance,
    )


def run_reach(env, sizes, targets, select=None, pins=None, iterations=1):
    """Features that are best where they are, and clusters that are split into
    halves: every new cluster keeps features, so the target is reached."""
    t = targets[env.pick("target", len(targets))]
    assign = [c + 1 for c in range(len(sizes)) for _ in range(sizes[c])]
    left = refine.run(
        env, "C09", assign, len(sizes), target=t, select=select, pins=pins, cpins=None, iterations=iterations, draws=(0, None),
        bits=[1] * len(assign), settled=True,
    )
    env.check(left == t, "the requested number of clusters is reached")
    env.reach("target reached")


def run_large(env, **kw):
    """larger models, in which every feature but one has a definite preference"""
    refine.run_large(env, "C09", **kw)


SCENARIOS = {
    "large": {
        "run": run_large,
        "quick": refine.large_cases("quick"),
        "thorough": refine.large_cases("thorough"),
        "reach": ["stored", "reduced", "split"],
    },
    "numbers": {
        "run": run_counts,
        "quick": [
            dict(C=6, per=1, targets=8, iterations=5),
            dict(C=5, per=2, targets=5, iterations=4, group=2),
            dict(C=7, per=1, targets=4, iterations=5, pins=[0, 5]),
            dict(C=13, per=1, targets=13, iterations=3, group=None),
            dict(C=9, per=1, targets=3, iterations=7),
            dict(C=6, per=2, targets=5, iterations=6, tolerance=1.5),
        ],
        "thorough": [
            dict(C=c, per=p, targets=c + 4, iterations=9, group=g, pins=x)
            for c in range(2, 11)
            for p in (1, 2)
            for g in (0, 2)
            for x in (None, [0], [0, 3])
        ],
        "reach": ["stored", "reduced"],
    },
    "reach": {
        "run": run_reach,
        "quick": [
            dict(sizes=[8], targets=[1, 2, 3, 4, 5]),
            dict(sizes=[2, 9, 3], targets=[3, 4, 5, 6], iterations=2),
            dict(sizes=[13, 2, 1], targets=[3, 5, 7, 9], pins=[0, 1]),
            dict(sizes=[4, 7], targets=[1, 2, 3, 4], select=[1]),
            dict(sizes=[30], targets=[11, 20]),
        ],
        "thorough": [dict(sizes=s, targets=list(range(len(s), sum(s) // 2 + 1)), iterations=i) for s in ([16], [9, 9], [40, 1, 2], [5, 6, 7, 8]) for i in (1, 3)],
        "reach": ["target reached"],
    },
    "refine": {
        "run": run,
        "quick": refine.cases("quick"),
        "thorough": refine.cases("thorough"),
        "reach": ["stored", "reduced", "split"],
    }
}
