"""C28: the web pages show exactly the model and the documents asked for."""
import re
from html.parser import HTMLParser

from engine import hr
from . import common as K
from . import models as M
from . import positions
from . import web
from .c17 import inter, total

BOUNDS = {
    "quick": "the overview, cluster, details and search pages of models of 3 features in 1-3 clusters over 1-2 documents with arbitrary "
    "document sets and pins, pivoted by any feature or cluster, intersected with any feature or cluster; every kind of result over "
    "every corpus of 2 documents of 1-2 tokens; models of up to 135 features in up to 70 clusters over 20 documents, two documents of "
    "two features arbitrary",
    "thorough": "4 features, 3 documents; corpora of 3 documents of up to 3 tokens",
}
ASSUMPTIONS = [
    "Requests go through the real dispatcher, handlers and templates in process; pages are read with Python's HTML parser.",
    "Similarities in pages are compared to the three digits shown.",
]

VOID = {"br", "input", "meta", "link", "img", "hr"}


class Page(HTMLParser):
    """what a page shows"""

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.stack = []
        self.clusters, self.links, self.forms, self.docs = [], [], [], []
        self.lines, self.heads, self.options, self.cells = [], [], [], []
        self.anchors, self.rows, self.boxes, self.choices = [], [], [], []
        self.select = None
        self.text = []
        self.feed(text)
        self.close()

    def within(self, tag, cls=""):
        return any(t == tag and cls in c for t, c in self.stack)

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        cls = (a.get("class") or "").split()
        if tag not in VOID:
            self.stack.append((tag, cls or [""]))
        if tag == "a" and "href" in a:
            self.links.append(a["href"])
            self.anchors.append([a["href"], ""])
        if tag == "div" and "feature-cluster" in cls:
            self.clusters.append({"title": "", "marked": False, "features": [], "links": []})
        if tag == "div" and "cluster-header" in cls and self.clusters:
            self.clusters[-1]["marked"] = "highlight" in cls
        if tag == "a" and self.within("div", "feature-cluster"):
            self.clusters[-1]["links"].append(a.get("href"))
            if self.within("ul", "compact-cluster"):
                self.clusters[-1]["features"].append({"href": a["href"], "field": "", "value": "", "score": "", "marked": False})
        if tag == "div" and "value" in cls and "highlight" in cls:
            self.clusters[-1]["features"][-1]["marked"] = True
        if tag == "form":
            self.forms.append({"action": a.get("action"), "inputs": [], "others": [], "method": a.get("method")})
        if tag == "input" and self.within("form"):
            self.forms[-1]["inputs"].append((a.get("name"), a.get("value")))
        if tag == "button" and a.get("formaction") and self.within("form"):
            self.forms[-1]["others"].append(a["formaction"])
        if tag == "select":
            self.select = a.get("name")
        if tag == "option":
            self.options.append(a.get("value"))
            self.choices.append((self.select, a.get("value")))
        if tag == "input" and a.get("type") == "checkbox":
            self.boxes.append((a.get("form"), a.get("name"), a.get("value")))
        if tag == "ul" and "doc-list" in cls or tag == "table":
            self.table = True
        if tag == "li" and self.within("ul", "concordances"):
            self.lines.append("")
            if self.rows:
                self.rows[-1][-1][2].append("")
        elif tag == "li" and self.within("ul", "doc-list"):
            self.docs.append("")
        if tag == "th":
            self.heads.append("")
        if tag == "tr":
            self.cells.append([])
            self.rows.append([])
        if tag == "td":
            self.cells[-1].append("")
        if tag in ("td", "th") and self.rows:
            self.rows[-1].append([int(a.get("rowspan", 1)), "", []])

    def handle_endtag(self, tag):
        while self.stack and any(t == tag for t, _ in self.stack):
            if self.stack.pop()[0] == tag:
                break

    def handle_data(self, data):
        self.text.append(data)
        if self.within("div", "cluster-header") and self.within("div", "feature-cluster"):
            self.clusters[-1]["title"] += data
        for cls, tag in (("field", "span"), ("value", "div"), ("score", "span")):
            if self.within(tag, cls) and self.within("ul", "compact-cluster"):
                self.clusters[-1]["features"][-1][cls] += data
        if self.within("a") and self.anchors:
            self.anchors[-1][1] += data
        if self.within("ul", "concordances") and self.lines:
            self.lines[-1] += data
            if self.rows and self.rows[-1][-1][2]:
                self.rows[-1][-1][2][-1] += data
        elif (self.within("td") or self.within("th")) and self.rows:
            self.rows[-1][-1][1] += data
        if self.within("ul", "concordances"):
            pass
        elif self.within("ul", "doc-list") and self.docs:
            self.docs[-1] += data
        if self.within("th"):
            self.heads[-1] += data
        if self.within("td"):
            self.cells[-1][-1] += data


def grid(rows):
    """the rows of a table, cells that span several rows in each of them"""
    out, open_ = [], {}
    for cells in rows:
        row, col, cells = [], 0, list(cells)
        while cells or col in open_:
            if col in open_:
                left, cell = open_[col]
            else:
                left, *cell = cells.pop(0)
            row.append((cell[0].strip(), tuple(x.strip() for x in cell[1])))
            if left > 1:
                open_[col] = (left - 1, cell)
            else:
                open_.pop(col, None)
            col += 1
        out.append(row)
    return out, not open_


def get(env, path, params=()):
    status, headers, text = web.request("GET", path, list(params), body=False)
    return status, headers, Page(text)


def shows(env, text, value):
    """this text is how the page shows the number"""
    text = text.strip()
    if env.symbolic:
        from engine import core

        if text in core.SHOWN:
            return env.eq(core.SHOWN[text], value)
        try:
            return env.eq(value, float(text))
        except ValueError:
            return False
    return text == "{:.2e}".format(value)


def title(c):
    m = re.match(r"\s*Cluster (-?\d+)\s*(?:-\s*(\S+))?\s*$", c["title"])
    return (int(m.group(1)), m.group(2)) if m else (None, None)


def feature_id(f):
    m = re.search(r"feature_id=(\d+)$", f["href"])
    return int(m.group(1)) if m else None


def check_features(env, c, fids, members, bits, base, scores, k, marked=None, positive=True):
    """the features of a cluster as shown: the best k by score"""
    ids = [feature_id(f) for f in c["features"]]
    env.check(len(set(ids)) == len(ids) and all(f in members for f in ids), "only features of the cluster, each once")
    for f, shown in zip(ids, c["features"]):
        if f not in members:
            continue
        i = fids.index(f)
        env.check(shown["field"].strip() == K.FIELDS[i % 5], "the field belongs to the feature")
        env.check(shown["value"].strip() == str(K.value(env, i)), "the value belongs to the feature")
        env.check(shows(env, shown["score"], scores[f]), "the number shown is the feature's")
        env.check(shown["marked"] == (f == marked), "exactly the selected feature is marked")
        env.check(shown["href"] == base + "?feature_id=%d" % f, "a feature leads to its documents")
        for g in members:
            if g not in ids:
                env.check(env.le(scores[g], scores[f]), "no feature left out belongs in the top k")
    for a, b in zip(ids, ids[1:]):
        if a in members and b in members:
            env.check(env.le(scores[b], scores[a]), "features in decreasing order")
    n = env.count([scores[f] > 0 for f in members]) if positive else len(members)
    env.check(env.eq(len(ids), env.ite(n < k, n, k)), "as many features as asked for")


def corpus(D):
    docs = [(("k%02d" if D > 10 else "k%d") % d, {"body": "body of document %d." % d}) for d in range(D)]
    return dict(corpus_class=lambda: K.Stub(docs))


def check_docs(env, page, want, D, limit):
    """the documents shown are documents asked for"""
    shown = []
    for text in page.docs:
        m = re.search(r"body of document (\d+)\.", text)
        env.check(bool(m), "only documents are shown")
        if m:
            shown.append(int(m.group(1)))
    env.check(len(set(shown)) == len(shown), "no document is shown twice")
    for d in shown:
        env.check(want[d], "only documents asked for are shown")
    n = env.count(want)
    env.check(env.eq(len(shown), env.ite(n < limit, n, limit)), "as many documents as asked for are shown")
    m = re.search(r"(All|Sample of)\s+(\d+)", " ".join("".join(page.text).split()))
    env.check(env.iff(m is not None, n > 0), "the number of matching documents is shown")
    if m:
        env.check(env.eq(int(m.group(2)), n), "the number of matching documents is the true one")
        env.check(env.iff(m.group(1) == "All", n <= limit), "a sample is shown as a sample")
    if shown:
        env.reach("documents")


def count(env, bm, D):
    return env.count([env.bit(bm, d) for d in range(D)])


def check_search(env, page, fids):
    """searching offers the fields of the index"""
    offered = [v for n, v in page.choices if n == "field"]
    env.check(sorted(offered) == sorted(set(K.FIELDS[i % 5] for i in range(len(fids)))), "every field can be searched, by its name")


def model(env, F, C, D, fixed, sizes):
    if sizes:
        return M.large_state(env, sizes, (0, sizes[0])) + (20,)
    return M.state(env, F, C, D, fixed=fixed) + (D,)


def run_overview(env, F=0, C=0, D=0, fixed=None, ks=(0,), by=None, docs=None, sizes=None):
    idx, fids, bits, assign, pins, cpins, D = model(env, F, C, D, fixed, sizes)
    clusters = sorted(set(assign.values()))
    members = {c: [f for f in fids if assign.get(f) == c] for c in clusters}
    union = {c: K.union(env, [bits[f] for f in members[c]]) for c in clusters}
    web.serve(env, idx, **(corpus(D) if docs else {}))
    env.draws = "first"
    env.schedule = "last"
    params = []
    k = ks[env.pick("k", len(ks))]
    if k:
        params.append(("top_k_features", str(k)))
    k = k or 40
    limit = 5
    if docs and env.pick("documents", 2):
        limit = docs
        params.append(("exemplar_docs", str(docs)))
    mark_f = mark_c = query = None
    if by == "feature":
        mark_f = fids[env.pick("by feature", F)] if not sizes else fids[env.pick("by feature", 2) * sizes[0]]
        query = bits[mark_f]
        params.append(("feature_id", str(mark_f)))
    elif by == "cluster":
        mark_c = clusters[env.pick("by cluster", len(clusters) if not sizes else 2)]
        query = union[mark_c]
        params.append(("cluster_id", str(mark_c)))
    status, headers, page = get(env, "/index/0/", params)
    env.check(status == 200, "the page is shown")
    if status != 200:
        return
    env.reach("shown")
    nothing = True if query is None else not (count(env, query, D) > 0)
    got = [title(c) for c in page.clusters]
    env.check(len(set(c for c, _ in got)) == len(got) and all(c in clusters for c, _ in got), "only clusters, each once")
    sims = {}
    for c in clusters:
        if nothing:
            env.check(any(c == g for g, _ in got), "every cluster is shown")
        else:
            i, t = inter(env, query, union[c], D), total(env, query, union[c], D)
            sims[c] = i / t
            env.check(env.iff(any(c == g for g, _ in got), i > 0), "exactly the clusters sharing a document are shown")
    order = []
    for (c, score), shown in zip(got, page.clusters):
        if c not in clusters:
            continue
        s = count(env, union[c], D) if nothing else sims[c]
        order.append(s)
        env.check(shows(env, score or "", s), "the number shown is the cluster's")
        env.check(shown["marked"] == (c == mark_c), "exactly the selected cluster is marked")
        if nothing:
            scores = {f: count(env, bits[f], D) for f in members[c]}
        else:
            scores = {f: inter(env, query, bits[f], D) / total(env, query, bits[f], D) for f in members[c]}
        check_features(env, shown, fids, members[c], bits, "/index/0/", scores, k, mark_f, positive=not nothing)
        if mark_f is not None:
            to = "/index/0/cluster/%d/?feature_id=%d" % (c, mark_f)
        elif mark_c is not None:
            to = "/index/0/cluster/%d/?filter_cluster_id=%d" % (c, mark_c)
        else:
            to = "/index/0/cluster/%d" % c
        env.check(to in shown["links"], "leads to the cluster, intersected with the selection")
        env.check("/index/0/?cluster_id=%d" % c in shown["links"], "leads to the documents of the cluster")
    for a, b in zip(order, order[1:]):
        env.check(env.le(b, a), "clusters in decreasing order")
    for form, name, c in page.boxes:
        env.check((form, name) == ("cluster_edit", "cluster_id"), "selecting is for editing clusters")
    env.check([c for _, _, c in page.boxes] == [str(c) for c, _ in got], "every cluster can be selected, where it stands")
    check_search(env, page, fids)
    if docs and query is not None:
        check_docs(env, page, [env.bit(query, d) for d in range(D)], D, limit)
    env.observe("clusters", sorted(c for c, _ in got))
    env.observe("features", sorted(len(c["features"]) for c in page.clusters))


def run_cluster(env, F=0, C=0, D=0, fixed=None, by=None, docs=None, sizes=None):
    idx, fids, bits, assign, pins, cpins, D = model(env, F, C, D, fixed, sizes)
    clusters = sorted(set(assign.values()))
    some = clusters if not sizes else [clusters[0], clusters[len(clusters) * 3 // 4], clusters[-1]]
    c = some[env.pick("cluster", len(some))]
    members = [f for f in fids if assign.get(f) == c]
    union = {x: K.union(env, [bits[f] for f in fids if assign.get(f) == x]) for x in clusters}
    web.serve(env, idx, **(corpus(D) if docs else {}))
    env.draws = "first"
    env.schedule = "last"
    params, mark = [], None
    want = [env.bit(union[c], d) for d in range(D)]
    if by in ("feature", "both"):
        mark = fids[env.pick("by feature", F)] if not sizes else fids[env.pick("by feature", 2) * sizes[0]]
        params.append(("feature_id", str(mark)))
        want = [env.and_(w, env.bit(bits[mark], d)) for d, w in enumerate(want)]
    if by in ("cluster", "both"):
        other = clusters[env.pick("by cluster", len(clusters) if not sizes else 2)]
        params.append(("filter_cluster_id", str(other)))
        want = [env.and_(w, env.bit(union[other], d)) for d, w in enumerate(want)]
    limit = 30
    if docs and env.pick("documents", 2):
        limit = docs
        params.append(("exemplar_docs", str(docs)))
    status, headers, page = get(env, "/index/0/cluster/%d/" % c, params)
    env.check(status == 200, "the page is shown")
    if status != 200:
        return
    env.reach("shown")
    query = env.mkbits(want)
    env.check([title(x)[0] for x in page.clusters] == [c], "exactly the cluster is shown")
    if len(page.clusters) != 1:
        return
    if env.count(want) > 0:
        scores = {f: inter(env, query, bits[f], D) / total(env, query, bits[f], D) for f in members}
        env.reach("matching")
        positive = True
    else:
        scores = {f: count(env, bits[f], D) for f in members}
        positive = False
    base = "/index/0/cluster/%d/" % c
    check_features(env, page.clusters[0], fids, members, bits, base, scores, len(members), mark, positive)
    shown = [feature_id(f) for f in page.clusters[0]["features"]]
    i = clusters.index(c)
    named = {}
    for to, label in page.anchors:
        named.setdefault(" ".join(label.split()), to)
    after = clusters[(i + 1) % len(clusters)]
    for other, label in ((clusters[i - 1], "Previous Cluster"), (after, "Next Cluster")):
        if len(clusters) > 1:
            env.check("/index/0/cluster/%d" % other in page.links, "leads to the neighbouring clusters")
            env.check(named.get(label) in (None, "/index/0/cluster/%d" % other), "in the direction it says")
    check_search(env, page, fids)
    removable = [v for n, v in page.choices if n == "feature_id"]
    env.check(not removable or sorted(removable) == sorted(str(f) for f in shown), "features can be chosen where they stand")
    pin = [f for f in page.forms if f["action"] == "/index/0/cluster/pin"]
    pinned = cpins[c]
    env.check(len(pin) == 1, "the cluster can be pinned or unpinned")
    for f in pin:
        env.check(("cluster_id", str(c)) in f["inputs"], "pinning is for this cluster")
        env.check(env.iff(("pinned", "0") in f["inputs"], pinned), "a pinned cluster can be unpinned, others be pinned")
        env.check(env.iff(("pinned", "1") in f["inputs"], env.not_(pinned)), "a pinned cluster can be unpinned, others be pinned")
    for f in page.forms:
        if f["action"] == "/index/0/cluster/create":
            made = sorted(v for n, v in f["inputs"] if n == "feature_id")
            env.check(made == sorted(str(x) for x in shown), "a new cluster is made of the features shown")
            env.reach("create")
        if f["action"] in ("/index/0/cluster/delete", "/index/0/cluster/refine"):
            env.check([v for n, v in f["inputs"] if n == "cluster_id"] == [str(c)], "editing is for this cluster")
        if f["action"] == "/index/0/cluster/delete":
            env.check([v for n, v in f["inputs"] if n == "return_cluster_id"] in ([], [str(after)]), "deleting leads to the next cluster")
        if f["action"] == "/index/0/search":
            env.check([v for n, v in f["inputs"] if n == "cluster_id"] == [str(c)], "searching stays with this cluster")
            env.reach("search")
    if docs:
        check_docs(env, page, want, D, limit)
    env.observe("features", sorted(shown))
    env.observe("links", sorted(page.links))


def run_search(env):
    """searching leads to the feature"""
    idx = K.new_index(env)
    K.add_docs(env, idx, ["k0"])
    fids = M.FIDS[:4]
    keys = [("text", "abc"), ("text", "a b&c=d"), ("tag", "abc"), ("tag", "\u00e9 'x'")]
    bits = {f: env.bits("docs%d" % f, 1) for f in fids}
    K.add_features(env, idx, [(f, k[0], k[1], bits[f]) for f, k in zip(fids, keys)])
    K.set_model(env, idx, {1: 0, 2: 2}, bits)
    web.serve(env, idx)
    i = env.pick("feature", 4)
    params = [("field", keys[i][0]), ("value", keys[i][1])]
    where = env.pick("from", 3)
    path = "/index/0/search"
    base = "/index/0/"
    if where:
        c = M.CIDS[env.pick("cluster", 2)]
        base = "/index/0/cluster/%d" % c
        if where == 1:
            params.append(("cluster_id", str(c)))
        else:
            path = base + "/search"
    status, headers, page = get(env, path, params)
    env.check(300 <= status < 400, "redirects to the feature")
    at = headers.get("location", "").partition("localhost")[2] or headers.get("location", "")
    at, _, q = at.partition("?")
    env.check(at.rstrip("/") == base.rstrip("/"), "stays where the search was made")
    env.check(q == "feature_id=%d" % fids[i], "shows the feature searched for")
    env.reach("found")
    env.observe("at", [at, q])


def run_details(env, D):
    idx, fids, bits, assign, pins, cpins = M.state(env, 3, 2, D, fixed=(1, 2, 2))
    web.serve(env, idx)
    status, headers, page = get(env, "/index/0/details")
    env.check(status == 200, "the page is shown")
    rows = sorted([c.strip() for c in r] for r in page.cells if len(r) == 5)
    fields = sorted(set(K.FIELDS[:3]))
    env.check([r[0] for r in rows] == fields, "every field is shown once")
    for r in rows:
        env.check(r[1] == str(K.FIELDS[:3].count(r[0])), "with its number of values")
    shown = sorted([str(x) for x in row] for row in idx.indexed_field_summary())
    env.check(rows == shown, "the values and positions of every field, as summarised")
    counts = [v for f in page.forms for n, v in f["inputs"] if n == "target_clusters" and v not in (None, "", "0")]
    env.check(all(v == "2" for v in counts), "the number of clusters offered for refining is that of the model")
    forms = [f["action"] for f in page.forms]
    env.check("/index/0/recreate_model" in forms and "/index/0/refine_model" in forms, "the forms to recreate and to refine the model")
    env.check(sorted(o for o in page.options if o in fields) == fields, "every field can be chosen for the model")
    env.reach("shown")
    env.observe("rows", rows)


class Tokens(K.Stub):
    def index(self, doc):
        return {"text": doc["text"], "Tag 1": doc["Tag 1"]}


KINDS = ("document", "concordance", "passage", None)


def run_kinds(env, lens, model, pages, kinds, tagged=False):
    """documents, concordances or passages, as asked for"""
    toks = [["abc"[env.pick("token %d.%d" % (d, i), 3)] for i in range(n)] for d, n in enumerate(lens)]
    body = lambda d: "body of document %d." % d
    # a value of another field that is also a token
    tags = [{"a"} if tagged and env.pick("tagged %d" % d, 2) else set() for d in range(len(lens))]
    docs = [("key%d" % d, {"text": t, "Tag 1": tags[d], "body": body(d)}) for d, t in enumerate(toks)]
    stub = Tokens(docs)
    idx = K.new_index(env)
    K.add_docs(env, idx, [k for k, _ in docs])
    ids = {"a": 1, "b": 2, "c": 3}
    has = {f: [d for d, t in enumerate(toks) if v in t] for v, f in ids.items()}
    rows = [(f, "text", v, hr.BitMap(has[f])) for v, f in ids.items()]
    if tagged:
        has[5] = [d for d, t in enumerate(tags) if t]
        rows.append((5, "Tag 1", "a", hr.BitMap(has[5])))
    field = {r[0]: r[1] for r in rows}
    names = {r[0]: r[2] for r in rows}
    K.add_features(env, idx, rows)
    idx.db.execute("update field_summary set position_count = ? where field = 'text'", (sum(lens),))
    positions.add_batch(env, idx, "text", [1, 2, 3], [(d, ["abc".index(x) for x in t]) for d, t in enumerate(toks)])
    assign = {f: M.CIDS[c - 1] for f, c in zip((1, 2, 3, 5), model) if c}
    bits = {f: hr.BitMap(has[f]) for f in has}
    K.set_model(env, idx, assign, bits)
    web.serve(env, idx, corpus_class=lambda: stub)
    env.draws = "first"
    env.schedule = "last"
    path, params, clauses = pages[env.pick("page", len(pages))]
    kind = kinds[env.pick("kind", len(kinds))]
    params = [tuple(p) for p in params]
    if kind:
        params.append(("result_type", kind))
    few = env.pick("documents", 3)
    if few:
        params.append(("exemplar_docs", str(few)))
    status, headers, page = get(env, path, params)
    env.check(status == 200, "the page is shown")
    if status != 200:
        return
    match = [d for d in range(len(toks)) if all(any(d in has[f] for f in cl) for cl in clauses)]
    if few == 1 and len(match) > 1:
        # one of them, whichever it is
        env.reach("sampled")
        if kind == "concordance":
            shown = [d for d in match if any(h.strip() == "key%d" % d for h in page.heads)]
        elif kind == "passage":
            env.check(len(page.docs) == 1, "as many documents as asked for are shown")
            return
        else:
            shown = [d for d in match if any(body(d) in t for t in page.docs)]
        env.check(len(shown) == 1, "as many documents as asked for are shown")
        match = shown
    if kind == "concordance":
        want = []
        for d in match:
            for v in sorted(set(names[f] for cl in clauses for f in cl if field[f] == "text")):
                want += [" ".join(toks[d])] * toks[d].count(v)
        env.check(sorted(x.strip() for x in page.lines) == sorted(want), "one concordance for every occurrence")
        heads = [h.strip() for h in page.heads if h.strip().startswith("key")]
        env.check(sorted(heads) == ["key%d" % d for d in match], "every matching document is shown with its key, once")
        env.check(not page.docs, "no other kind of result is shown")
        table, whole = grid(page.rows[1:])
        asked = set((field[f], names[f]) for cl in clauses for f in cl)
        lines = []
        for d in match:
            for g, v in asked:
                if g == "text" and v in toks[d]:
                    lines.append((docs[d][0], g, v, (" ".join(toks[d]),) * toks[d].count(v)))
                if g == "Tag 1" and v in tags[d]:
                    lines.append((docs[d][0], g, v, ()))
        got = [tuple(c[0] for c in r[:3]) + r[3][1:] for r in table if len(r) == 4]
        env.check(len(got) == len(table) and whole, "the table has four columns")
        env.check(sorted(got) == sorted(lines), "every line stands with its document, field and value")
        if want:
            env.reach("concordance")
    elif kind == "passage":
        text = [re.sub(r"\s+", " ", t) for t in page.docs]
        env.check(len(text) == len(match), "every document with a passage is shown once")
        for d in match:
            # the documents are shorter than the overhang
            env.check(any(" ".join(toks[d]) in t for t in text), "passages of every matching document")
        for t in text:
            env.check(any(" ".join(toks[d]) in t for d in match), "only passages of matching documents")
        if text:
            env.reach("passage")
    else:
        env.check(sorted(t.strip() for t in page.docs) == sorted("<%s>" % body(d) for d in match), "exactly the matching documents are shown")
        env.check(not page.lines, "no other kind of result is shown")
        if match:
            env.reach("document")
    env.observe("shown", [sorted(page.lines), sorted(page.docs)])


PAGES = [
    ("/index/0/", [("feature_id", "1")], [[1]]),
    ("/index/0/", [("cluster_id", "0")], [[1, 2]]),
    ("/index/0/cluster/0/", [], [[1, 2]]),
    ("/index/0/cluster/0/", [("feature_id", "3")], [[1, 2], [3]]),
    ("/index/0/cluster/0/", [("filter_cluster_id", "2")], [[1, 2], [3]]),
    ("/index/0/cluster/0/", [("feature_id", "1"), ("filter_cluster_id", "2")], [[1, 2], [1], [3]]),
]
TAGGED = [
    ("/index/0/", [("feature_id", "5")], [[5]]),
    ("/index/0/", [("cluster_id", "0")], [[1, 5]]),
    ("/index/0/cluster/0/", [("feature_id", "2")], [[1, 5], [2]]),
    ("/index/0/cluster/2/", [("filter_cluster_id", "0")], [[2, 3], [1, 5]]),
]
SCENARIOS = {
    "overview": {
        "run": run_overview,
        "quick": [
            dict(F=3, C=3, D=2, fixed=(1, 2, 3), ks=[0]),
            dict(F=3, C=2, D=2, fixed=(1, 1, 2), ks=[0, 1, 2]),
            dict(F=2, C=2, D=2, fixed=(1, 2), ks=[0], by="feature", docs=1),
            dict(F=3, C=2, D=2, fixed=(1, 1, 2), ks=[1], by="feature"),
            dict(F=3, C=2, D=2, fixed=(1, 2, 1), ks=[0], by="cluster"),
            dict(F=2, C=2, D=2, fixed=(2, 1), ks=[0], by="cluster", docs=1),
            dict(sizes=[130, 3], ks=[0, 41, 115]),
            dict(sizes=[2, 1] * 35),
            dict(sizes=[43, 3, 2], by="feature", docs=3),
            dict(sizes=[12, 3] * 4, ks=[7], by="cluster", docs=19),
        ],
        "thorough": [
            dict(F=4, C=3, D=2, fixed=(1, 2, 3, 1), ks=[0, 1, 2]),
            dict(F=3, C=3, D=3, fixed=(1, 2, 3), ks=[0], by="feature", docs=2),
            dict(F=3, C=2, D=3, fixed=(1, 2, 1), ks=[0, 1], by="cluster", docs=2),
            dict(F=4, C=2, D=2, fixed=(1, 2, 1, 1), ks=[0, 1, 2], by="feature"),
        ],
        "reach": ["shown", "documents"],
    },
    "cluster": {
        "run": run_cluster,
        "quick": [
            dict(F=3, C=3, D=1, fixed=(1, 2, 3)),
            dict(F=3, C=2, D=2, fixed=(1, 1, 2)),
            dict(F=3, C=2, D=1, fixed=(1, 1, 2), by="feature", docs=1),
            dict(F=2, C=2, D=2, fixed=(1, 2), by="both", docs=1),
            dict(F=3, C=3, D=1, fixed=(1, 2, 3), by="cluster", docs=1),
            dict(sizes=[45, 3, 2], docs=3),
            dict(sizes=[3, 1, 2] * 6, docs=17),
            dict(sizes=[2, 1] * 35),
            dict(sizes=[130, 3, 2], by="feature"),
            dict(sizes=[120, 3, 2]),
            dict(sizes=[12, 3, 7], by="both", docs=2),
        ],
        "thorough": [
            dict(F=4, C=3, D=2, fixed=(1, 2, 3, 1)),
            dict(F=3, C=2, D=2, fixed=(1, 2, 1), by="feature", docs=1),
            dict(F=3, C=2, D=3, fixed=(1, 2, 1), by="cluster", docs=2),
            dict(F=3, C=2, D=2, fixed=(1, 2, 1), by="both", docs=1),
        ],
        "reach": ["shown", "matching", "create", "search", "documents"],
    },
    "search": {"run": run_search, "quick": [dict()], "reach": ["found"]},
    "details": {"run": run_details, "quick": [dict(D=1)], "reach": ["shown"]},
    "kinds": {
        "run": run_kinds,
        "quick": [dict(lens=[2, 1], model=(1, 1, 2), pages=[p], kinds=KINDS) for p in PAGES]
        + [dict(lens=[2, 1], model=(1, 2, 2, 1), pages=[p], kinds=("concordance", "document"), tagged=True) for p in TAGGED],
        "thorough": [dict(lens=[3, 2], model=(1, 1, 2), pages=[p], kinds=KINDS) for p in PAGES],
        "reach": ["concordance", "passage", "document", "sampled"],
    },
}
