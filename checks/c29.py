"""C29: the command line does what its arguments say."""
import csv
import inspect
import os

from engine import hr
from . import common as K
from . import models as M
from .c07 import snapshot
from .c17 import inter, total
from .c23 import dump

BOUNDS = {
    "quick": "the model, index, sample, serve, add-site and graph commands with every combination of up to 4 options at a time, over "
    "models of 2-3 features in up to 3 clusters and 2-3 documents with arbitrary document sets",
    "thorough": "4 features, 3 documents, more options at a time",
}
ASSUMPTIONS = [
    "Commands run through click's own argument parsing, in process; each option takes one of a few values or is left out.",
    "The server is not started: what it would serve is looked at instead.",
]


def invoke(args, answer=""):
    import click.testing

    r = click.testing.CliRunner().invoke(hr.cli.cli, [str(a) for a in args], input=answer)
    return r


def ran(env, r):
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        raise r.exception
    env.check(r.exit_code == 0, "the command succeeds")
    return r.exit_code == 0


def recorder(env, name, calls):
    real = getattr(hr.index.Index, name)
    sig = inspect.signature(inspect.unwrap(real))

    def record(self, *args, **kwargs):
        b = sig.bind(self, *args, **kwargs)
        b.apply_defaults()
        a = dict(b.arguments)
        del a["self"]
        a["seed"] = getattr(self.random, "seed_value", None)
        calls.append((name, self.db_path, a))

    env.patch(hr.index.Index, name, record)


# option: argument it sets, value if left out, values
REFINE = {
    "--iterations": ("iterations", 10, [1, 0]),
    "--clusters": ("target_clusters", None, [1, 3]),
    "--tolerance": ("tolerance", 0.01, [0.5, 0.0]),
    "--move-acceptance-probability": ("move_acceptance_probability", 0.5, [1.0, 0.0]),
    "--minimum-cluster-features": ("minimum_cluster_features", 1, [4, 0]),
    "--group-test-batches": ("group_test_batches", None, [0, 7]),
    "--group-test-top-k": ("group_test_top_k", 2, [5, 0]),
    "--random-seed": ("seed", None, [0, 12]),
}
INIT = {"--clusters": ("n_clusters", 64, [1, 3]), "--min-docs": ("min_docs", 100, [1, 0])}


def run_model(env, model, options, answers=("",)):
    idx, fids, bits, assign, pins, cpins = M.state(env, 2, 2, 1, fixed=(1, 2) if model else (0, 0))
    before = snapshot(idx.db)
    calls = []
    for name in ("refine_clusters", "initialise_clusters"):
        recorder(env, name, calls)
    args, want, init = [], {}, {"n_clusters": 64, "min_docs": 100}
    for o, (a, default, values) in REFINE.items():
        want[a] = default
    for o in options:
        values = (REFINE.get(o) or INIT.get(o) or (0, 0, []))[2]
        if o == "--include-field":
            n = env.pick("fields", 3)
            fields = [("text", "tag")[env.pick("field %d" % i, 2)] for i in range(n)]
            for f in fields:
                args += [o, f]
            init["fields"] = fields
            continue
        if o == "--restart":
            if env.pick("restart", 2):
                args.append(o)
            continue
        v = env.pick(o, len(values) + 1)
        if v < len(values):
            args += [o, values[v]]
            if o in REFINE:
                want[REFINE[o][0]] = values[v]
            if o in INIT:
                init[INIT[o][0]] = values[v]
    answer = answers[env.pick("answer", len(answers))]
    restart = "--restart" in args
    r = invoke(["model", idx.db_path] + args, answer)
    refused = model and restart and not answer.lower().startswith("y")
    if refused:
        env.check(not calls, "without confirmation nothing is done")
        env.check(r.exit_code != 0, "without confirmation the command fails")
        env.check(env.same(snapshot(idx.db), before), "without confirmation nothing changes")
        env.reach("refused")
        return
    if not ran(env, r):
        return
    names = [c[0] for c in calls]
    fresh = not model or restart
    env.check(names == (["initialise_clusters"] if fresh else []) + ["refine_clusters"], "a model is made exactly when there is none or a restart is confirmed")
    if fresh:
        env.reach("fresh")
        if want["target_clusters"] is None:
            want["target_clusters"] = 64
    else:
        env.reach("refined")
    for name, path, got in calls:
        env.check(os.path.abspath(path) == os.path.abspath(idx.db_path), "for the index given")
        if name == "initialise_clusters":
            env.check(sorted(set(got.get("include_fields") or [])) == sorted(set(init.get("fields", []))), "the fields given")
            for a in ("n_clusters", "min_docs"):
                env.check(got.get(a) == init[a], a + " as given")
        else:
            # refining all of the model
            env.check(not got.pop("cluster_ids", None), "the whole model is refined")
            fresh_default = fresh and want["target_clusters"] == 64 and got.get("target_clusters") is None
            for a, v in want.items():
                if a == "target_clusters" and fresh_default:
                    continue
                env.check(got.get(a) == v and type(got.get(a)) is type(v), a + " as given")
        if "--random-seed" in options:
            env.check(got["seed"] == want["seed"], "the seed given")


def run_create(env, F, D, fixed):
    """creating and restarting for real"""
    idx, fids, bits, assign, pins, cpins = M.state(env, F, 2, D, fixed=fixed)
    n = 1 + env.pick("clusters", 2)
    least = env.pick("min docs", D + 1)
    fields = [f for f in sorted(set(K.FIELDS)) if env.pick("use " + f, 2)]
    calls = []
    recorder(env, "refine_clusters", calls)
    env.schedule = "last"
    args = ["model", idx.db_path, "--clusters", n, "--min-docs", least, "--restart"]
    for f in fields:
        args += ["--include-field", f]
    if not ran(env, invoke(args, "y\n")):
        return
    fc, cl = K.check_summaries(env, K.reader(env, idx), bits)
    total = 0
    for i, f in enumerate(fids):
        fit = env.and_(not fields or K.FIELDS[i] in fields, env.le(least, K.card(env, bits[f])))
        env.check(env.iff(f in fc, fit), "exactly the features with enough documents in the fields given")
        total += f in fc
    env.check(len(cl) == min(n, total), "as many clusters as asked for")
    env.check([c[0] for c in calls] == ["refine_clusters"], "and then refined")
    if fc:
        env.reach("created")
    env.observe("sizes", sorted(c[1] for c in cl.values()))


TEXTS = ['first, "quoted"', "second\nline; 'x'", "third", "fourth"]


def plain(env, texts, name="corpus.db"):
    path = os.path.join(env.tmpdir(), name)
    c = hr.corpus.PlainTextSqliteCorpus(path)
    c.replace_docs(texts)
    keys = list(c.keys())
    c.close()
    return path, keys


def run_sample(env, F, C, D, fixed, sizes, more=0):
    """the sample command writes a genuine sample"""
    texts = TEXTS[:D] + ["document %d" % i for i in range(more)]
    corpus, keys = plain(env, texts)
    idx = K.new_index(env)
    K.add_docs(env, idx, keys)
    fids = M.FIDS[:F]
    bits = {f: env.bits("docs%d" % f, D) for f in fids}
    if more:
        # every document is in one cluster only, but a few that are in all
        for i, f in enumerate(fids):
            bits[f] |= hr.BitMap([D + d for d in range(more) if d % F == i or d < 3])
        D += more
    K.add_features(env, idx, [(f, K.FIELDS[i], env.vconst(i), bits[f]) for i, f in enumerate(fids)])
    assign = {f: M.CIDS[c - 1] for f, c in zip(fids, fixed)}
    K.set_model(env, idx, assign, bits)
    clusters = sorted(set(assign.values()))
    docs = {c: K.union(env, [bits[f] for f in assign if assign[f] == c]) for c in clusters}
    env.schedule = "last"
    if more:
        env.draws = "first"
    out = os.path.join(env.tmpdir(), "sample.csv")
    size = sizes[env.pick("size", len(sizes))]
    args = ["plaintext-corpus", "sample", corpus, idx.db_path, out] + ([] if size is None else ["--docs-per-cluster", size])
    size = 50 if size is None else size
    if not ran(env, invoke(args)):
        return
    with open(out, newline="", encoding="utf-8") as f:
        rows = list(csv.DictReader(f))
    seen = {}
    for r in rows:
        env.check(int(r["doc_key"]) in keys and int(r["sampled_cluster"]) in clusters, "only documents and clusters of the index")
        if int(r["doc_key"]) not in keys or int(r["sampled_cluster"]) not in clusters:
            return
        d, c = keys.index(int(r["doc_key"])), int(r["sampled_cluster"])
        env.check(d not in seen, "no document is sampled twice")
        seen[d] = c
        env.check(env.bit(docs[c], d), "a document is sampled from its cluster")
        env.check(r["text"] == texts[d], "with its own text")
        for o in clusters:
            env.check(env.iff((r.get("cluster_%d" % o) or "") == "1", env.bit(docs[o], d)), "with the clusters it is in")
    for c in clusters:
        n = len([d for d in seen if seen[d] == c])
        if size:
            env.check(n <= size, "no more documents than asked for")
        if not size or n < size:
            for d in range(D):
                env.check(env.implies(env.bit(docs[c], d), d in seen), "as many documents as asked for, or all that are left")
    if rows:
        env.reach("sampled")
    env.observe("rows", len(rows))


def run_graph(env, F, C, D, fixed, numbers):
    idx = K.new_index(env)
    K.add_docs(env, idx, ["k%d" % d for d in range(D)])
    fids = M.FIDS[:F]
    bits = {f: env.bits("docs%d" % f, D) for f in fids}
    values = [100 + i if numbers else "v%d" % i for i in range(F)]
    K.add_features(env, idx, [(f, K.FIELDS[i], values[i], bits[f]) for i, f in enumerate(fids)])
    assign = {f: M.CIDS[c - 1] for f, c in zip(fids, fixed)}
    K.set_model(env, idx, assign, bits)
    clusters = sorted(set(assign.values()))
    docs = {c: K.union(env, [bits[f] for f in assign if assign[f] == c]) for c in clusters}
    env.schedule = "last"
    written = []
    env.patch(hr.cli.nx, "write_graphml", lambda g, path, *a, **k: written.append((g, path)))
    k = [None, 0, 1, 2][env.pick("top k", 4)]
    field = [None, True, False][env.pick("field in label", 3)]
    out = os.path.join(env.tmpdir(), "graph.graphml")
    args = ["export", "graph", idx.db_path, out] + ([] if k is None else ["--top-k-features", k])
    args += [] if field is None else ["--include-field-in-label" if field else "--exclude-field-in-label"]
    if not ran(env, invoke(args)):
        return
    env.check([p for _, p in written] == [out], "exactly the file asked for is written")
    if len(written) != 1:
        return
    g = written[0][0]
    env.check(sorted(g.nodes) == clusters, "one node for every cluster")
    for c in clusters:
        if c not in g.nodes:
            continue
        mine = [f for f in fids if assign[f] == c]
        env.check(env.eq(g.nodes[c].get("document_count"), K.card(env, docs[c])), "with its number of documents")
        names = {("%s:%s" % (K.FIELDS[fids.index(f)], values[fids.index(f)]) if field in (None, True) else str(values[fids.index(f)])): f for f in mine}
        parts = [p for p in str(g.nodes[c].get("label")).split(", ") if p]
        env.check(all(p in names for p in parts) and len(set(parts)) == len(parts), "labelled with features of the cluster")
        got = [names[p] for p in parts if p in names]
        env.check(len(got) == min(len(mine), 5 if k is None else k), "with as many features as asked for")
        for f in mine:
            if f not in got:
                for o in got:
                    env.check(env.le(K.card(env, bits[f]), K.card(env, bits[o])), "labelled with the most frequent features")
                env.reach("left out")
        for a, b in zip(got, got[1:]):
            env.check(env.le(K.card(env, bits[b]), K.card(env, bits[a])), "most frequent first")
    edges = {(min(a, b), max(a, b)): d for a, b, d in g.edges(data=True)}
    for i, a in enumerate(clusters):
        for b in clusters[i + 1 :]:
            n = inter(env, docs[a], docs[b], D)
            env.check(env.iff((a, b) in edges, n > 0), "an edge exactly for clusters sharing a document")
            if (a, b) in edges:
                env.check(env.eq(edges[a, b]["weight"], n / total(env, docs[a], docs[b], D)), "weight is the similarity")
    env.reach("written")
    env.observe("labels", sorted(len(str(g.nodes[c].get("label"))) for c in g.nodes))


WORDS = ["a b a", "b", "c a", "d"]


def run_index(env, n, batches, positions):
    """the index command indexes the corpus as asked"""
    texts = [WORDS[env.pick("text %d" % i, len(WORDS))] for i in range(n)]
    corpus, keys = plain(env, texts)
    path = os.path.join(env.tmpdir(), "index.db")
    again = env.pick("again", 2)
    env.schedule = "last"
    batch = batches[env.pick("batch", len(batches))]
    pos = positions[env.pick("positions", len(positions))]
    args = ["plaintext-corpus", "index", corpus, path]
    if again:
        if not ran(env, invoke(args + ["--index-positions", "true"])):
            return
        env.reach("again")
        c = hr.corpus.PlainTextSqliteCorpus(corpus)
        texts = texts[1:] + ["e"]
        c.replace_docs(texts)
        keys = list(c.keys())
        c.close()
    seen = []
    real = hr.index.Index.index

    def spy(self, *a, **k):
        b = inspect.signature(inspect.unwrap(real)).bind(self, *a, **k)
        b.apply_defaults()
        seen.append(b.arguments)
        return real(self, *a, **k)

    env.patch(hr.index.Index, "index", spy)
    if not ran(env, invoke(args + ([] if batch is None else ["--doc-batch-size", batch]) + ([] if pos is None else ["--index-positions", pos]))):
        return
    env.check(len(seen) == 1 and seen[0].get("doc_batch_size") == (batch or 5000), "in batches of the size asked for")
    idx = hr.index.Index(path, pool=K.pool(2))
    ids = {k: d for d, k in idx.db.execute("select doc_id, doc_key from doc_key")}
    env.check(sorted(ids) == sorted(keys), "every document is indexed, once")
    if sorted(ids) != sorted(keys):
        return
    for w in "abcde":
        want = sorted(ids[k] for k, t in zip(keys, texts) if w in t.split())
        env.check(sorted(idx[("text", w)]) == want, "a word finds exactly its documents")
    n = sum(r[0] for r in idx.db.execute("select position_count from field_summary where field = 'text'"))
    tokens = sum(len(hr.utilities.tokens(t)) for t in texts)
    on = pos in (None, "true", "1")
    stored = list(idx.db.execute("select count(*) from position_index"))[0][0]
    env.check((stored > 0) == (on and tokens > 0), "positions are recorded exactly when asked for")
    env.check(n == (tokens if on else 0), "positions are recorded exactly when asked for")
    env.reach("positions" if on else "no positions")
    env.observe("stored", [sorted(ids), n])


GROUPS = [("plaintext-corpus", "PlainTextSqliteCorpus"), ("stackexchange-corpus", "StackExchangeCorpus"), ("twittersphere-corpus", "TwittersphereCorpus"), (None, None)]


def run_serve(env):
    """what is served, and refusing what is not an index"""
    group, cls = GROUPS[env.pick("group", len(GROUPS))]
    kind = env.pick("kind", 3)
    path = os.path.join(env.tmpdir(), "some.db")
    if kind == 0:
        idx = K.new_index(env, path=path)
        K.add_docs(env, idx, ["k"])
    elif kind == 1:
        db = hr.db_utilities.connect_sqlite(path)
        db.execute("create table foo(x)")
        db.execute("pragma user_version = %d" % hr.schema.CURRENT_SCHEMA_VERSION)
        db.close()
    else:
        with open(path, "w") as f:
            f.write("not a database at all")
    before = dump(path) if kind != 2 else open(path, "rb").read()
    corpus = os.path.join(env.tmpdir(), "corpus.db")
    open(corpus, "w").close()
    served = []

    class Engine:
        def block(self):
            served.append("block")

    def launch(server, *a, **k):
        served.append(server)
        return Engine()

    env.patch(hr.server, "launch_web_server", launch)
    what = [None, cls][bool(group)]
    args = [group, "serve", corpus, path] if group else ["serve", path]
    r = invoke(args)
    if kind:
        env.check(r.exit_code != 0 and r.exception is not None, "what is not an index is refused")
        env.check(not served, "what is not an index is not served")
        env.check((dump(path) if kind != 2 else open(path, "rb").read()) == before, "what is not an index is left alone")
        env.reach("refused")
        return
    if not ran(env, r):
        return
    env.check(len(served) == 2 and served[1] == "block", "the index is served")
    if len(served) != 2:
        return
    s = served[0]
    made = []
    if cls:
        env.check(s.corpus_class is getattr(hr.corpus, cls), "with the kind of corpus named")
        s.corpus_class = lambda *a, **k: made.append((a, k))
    else:
        env.check(s.corpus_class is None, "without a corpus")
    idx = s.index(0)
    env.check(os.path.abspath(idx.db_path) == os.path.abspath(path), "the index given is served")
    env.check(sorted(d for d, in idx.db.execute("select doc_key from doc_key")) == ["k"], "the index given is served")
    if cls:
        env.check(len(made) == 1 and list(made[0][0]) + list(made[0][1].values()) == [corpus], "with the corpus given")
    env.reach("served")


def run_addsite(env):
    """each file is taken for what it was given as"""
    calls = []
    real = hr.corpus.StackExchangeCorpus.add_site_data
    sig = inspect.signature(inspect.unwrap(real))

    def record(self, *a, **k):
        args = dict(sig.bind(self, *a, **k).arguments)
        calls.append((args.pop("self").db_path, args))

    env.patch(hr.corpus.StackExchangeCorpus, "add_site_data", record)
    files = {}
    names = ["p.xml", "c.xml", "u.xml"]
    order = env.pick("order", 3)
    names = names[order:] + names[:order]
    for what, name in zip(("posts", "comments", "users"), names):
        files[what] = os.path.join(env.tmpdir(), name)
        open(files[what], "w").close()
    corpus = os.path.join(env.tmpdir(), "sx.db")
    if not ran(env, invoke(["stackexchange-corpus", "add-site", files["posts"], files["comments"], files["users"], "https://x.example", corpus])):
        return
    env.check(len(calls) == 1 and os.path.abspath(calls[0][0]) == os.path.abspath(corpus), "added to the corpus given")
    if calls:
        env.check(list(calls[0][1].values()) == [files["posts"], files["comments"], files["users"], "https://x.example"], "each file for what it was given as")
    env.reach("added")


SCENARIOS = {
    "model": {
        "run": run_model,
        "quick": [
            dict(model=True, options=["--restart", "--clusters", "--min-docs", "--include-field"], answers=["y\n", "n\n", ""]),
            dict(model=False, options=["--restart", "--clusters", "--min-docs", "--include-field"], answers=["", "n\n"]),
            dict(model=True, options=["--iterations", "--clusters", "--tolerance", "--move-acceptance-probability"]),
            dict(model=True, options=["--clusters", "--minimum-cluster-features", "--group-test-batches", "--group-test-top-k", "--random-seed"]),
            dict(model=False, options=["--iterations", "--clusters", "--random-seed"]),
        ],
        "thorough": [
            dict(model=m, options=["--restart", "--iterations", "--clusters", "--min-docs", "--include-field", "--random-seed"], answers=["y\n", "n\n", "", "Y\n", "yes\n"])
            for m in (True, False)
        ]
        + [dict(model=m, options=["--clusters", "--minimum-cluster-features", "--group-test-batches", "--group-test-top-k", "--random-seed", "--tolerance"]) for m in (True, False)],
        "reach": ["refused", "fresh", "refined"],
    },
    "create": {
        "run": run_create,
        "quick": [dict(F=3, D=2, fixed=(1, 2, 0)), dict(F=3, D=1, fixed=(0, 0, 0))],
        "thorough": [dict(F=4, D=2, fixed=(1, 2, 0, 1)), dict(F=3, D=3, fixed=(0, 0, 0))],
        "reach": ["created"],
    },
    "sample": {
        "run": run_sample,
        "quick": [dict(F=3, C=2, D=3, fixed=(1, 2, 2), sizes=[None, 1]), dict(F=3, C=3, D=2, fixed=(1, 2, 3), sizes=[0, 1]), dict(F=2, C=2, D=1, fixed=(1, 2), sizes=[None, 0, 55], more=116)],
        "thorough": [dict(F=3, C=3, D=3, fixed=(1, 2, 3), sizes=[0, 1, 2, None]), dict(F=2, C=2, D=4, fixed=(1, 2), sizes=[1, 2])],
        "reach": ["sampled"],
    },
    "graph": {
        "run": run_graph,
        "quick": [dict(F=3, C=2, D=2, fixed=(1, 1, 2), numbers=n) for n in (False, True)],
        "thorough": [dict(F=4, C=2, D=2, fixed=(1, 1, 2, 1), numbers=n) for n in (False, True)] + [dict(F=3, C=3, D=3, fixed=(1, 2, 3), numbers=False)],
        "reach": ["written", "left out"],
    },
    "index": {
        "run": run_index,
        "quick": [dict(n=2, batches=[None, 1], positions=[None, "false", "true"])],
        "thorough": [dict(n=3, batches=[None, 1, 2], positions=[None, "false", "true"])],
        "reach": ["again", "positions", "no positions"],
    },
    "serve": {"run": run_serve, "quick": [dict()], "thorough": [dict()], "reach": ["served", "refused"]},
    "addsite": {"run": run_addsite, "quick": [dict()], "thorough": [dict()], "reach": ["added"]},
}
