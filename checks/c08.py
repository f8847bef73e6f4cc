"""C08: refinement only moves what it may move."""
from . import refine

BOUNDS = {
    "quick": "20 shapes of models of 3-4 features in 2-4 clusters: every pin set, selections, targets below, at and above the number of "
    "clusters, group testing; arbitrary similarity scores; 1-2 iterations; the first 0-2 choices and 0-3 coin flips of the random "
    "stream arbitrary",
    "thorough": "over 250 such shapes with up to 5 features, up to 3 iterations",
}
ASSUMPTIONS = [
    "Similarity scores are arbitrary numbers (the real scoring function, decided by C10, is replaced by any function of "
    "cluster, group and feature that scores what it is asked to score)."
]


def run(env, **kw):
    refine.run(env, "C08", **kw)


def run_large(env, **kw):
    """larger models, in which every feature but one has a definite preference"""
    refine.run_large(env, "C08", **kw)


SCENARIOS = {
    "large": {
        "run": run_large,
        "quick": refine.large_cases("quick"),
        "thorough": refine.large_cases("thorough"),
        "reach": ["moved", "new cluster"],
    },
    "refine": {
        "run": run,
        "quick": refine.cases("quick"),
        "thorough": refine.cases("thorough"),
        "reach": ["moved", "new cluster"],
    }
}
