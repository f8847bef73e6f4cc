"""C30: text from documents is shown as text, never as markup."""
import html
import os
import re
from html.parser import HTMLParser

from engine import hr
from . import c21
from . import c26
from . import common as K
from . import models as M
from . import positions
from . import web
from .c28 import VOID, Page

BOUNDS = {
    "quick": "values, fields, keys, tokens and whole documents made of every special character, in every page and kind of result, over "
    "models of 3 features and 2 documents with arbitrary document sets; Stack Exchange posts of 2 sites with arbitrary authors, "
    "parents and comments; 2 tweets by arbitrary users",
    "thorough": "3 documents, more posts and comments, more pages",
}
ASSUMPTIONS = [
    "Escaping treats characters one by one, so one text holding every special character and a ready-made reference stands for all texts; "
    "which documents, features and users hold it is arbitrary.",
    "The bodies of Stack Exchange posts are HTML, and the text of tweets arrives already escaped, as those sites deliver them.",
]
EVIL = "\"'><zz9 q='1' q=\"2\"><!-- &lt;b&gt; &amp; </zz9>"
# without angle brackets, which cannot be part of a tag of a post
TAG = "\"'q='1'&lt;zz9&gt;&amp;"


class Strict(Page):
    """also notes markup that must not be there"""

    def __init__(self, text):
        self.foreign, self.opts, self.terms, self.pieces = [], [], [], []
        super().__init__(text)

    def handle_starttag(self, tag, attrs):
        if "zz9" in tag or any(n.startswith("q") or "zz9" in n for n, _ in attrs):
            self.foreign.append((tag, attrs))
        super().handle_starttag(tag, attrs)
        if tag == "option":
            self.opts.append("")
        self.pieces.append("\0")

    def handle_endtag(self, tag):
        super().handle_endtag(tag)
        self.pieces.append("\0")

    def handle_comment(self, data):
        self.foreign.append(("comment", data))

    def handle_data(self, data):
        super().handle_data(data)
        if self.stack and self.stack[-1][0] == "option":
            self.opts[-1] += data
        self.pieces.append(data)

    def texts(self):
        return [re.sub(r"\s+", " ", x).strip() for x in "".join(self.pieces).split("\0") if x.strip()]


def look(env, text):
    p = Strict(str(text))
    env.check(not p.foreign, "no text becomes markup")
    return p


def get(env, path, params=()):
    status, headers, text = web.request("GET", path, [tuple(p) for p in params], body=False)
    env.check(status == 200, "the page is shown")
    return look(env, text) if status == 200 else None


def evil(i):
    return "%d%s" % (i, EVIL)


PATHS = [
    ("/index/0/", []),
    ("/index/0/", [("feature_id", "1")]),
    ("/index/0/", [("cluster_id", "0")]),
    ("/index/0/cluster/0/", []),
    ("/index/0/cluster/0/", [("feature_id", "1")]),
    ("/index/0/details", []),
]


def run_values(env, D, fixed, pages):
    """fields and values of features"""
    idx = K.new_index(env)
    K.add_docs(env, idx, ["k%d" % d for d in range(D)])
    fids = M.FIDS[:3]
    bits = {f: env.bits("docs%d" % f, D) for f in fids}
    fields = ["f" + EVIL, "f" + EVIL, "tag"]
    values = [evil(i) for i in range(3)]
    K.add_features(env, idx, [(f, fields[i], values[i], bits[f]) for i, f in enumerate(fids)])
    assign = {f: M.CIDS[c - 1] for f, c in zip(fids, fixed) if c}
    K.set_model(env, idx, assign, bits)
    idx.db.execute("update field_summary set min_value = ?, max_value = ? where field = 'tag'", (values[2], values[2]))
    idx.db.execute("update field_summary set min_value = ?, max_value = ? where field != 'tag'", (values[0], values[1]))
    web.serve(env, idx)
    env.schedule = "last"
    path, params = pages[env.pick("page", len(pages))]
    page = get(env, path, params)
    if page is None:
        return
    if path.endswith("details"):
        rows = sorted([c.strip() for c in r] for r in page.cells if len(r) == 5)
        env.check([r[:4] for r in rows] == [[fields[0], "2", values[0], values[1]], ["tag", "1", values[2], values[2]]], "fields and values are shown as they are")
        env.check(sorted(page.options) == sorted(set(fields)) and sorted(page.opts) == sorted(set(fields)), "fields are offered as they are")
        env.reach("details")
        return
    seen, mine = 0, []
    for c in page.clusters:
        for f in c["features"]:
            i = fids.index(int(f["href"].rpartition("=")[2]))
            env.check(f["field"].strip() == fields[i] and f["value"].strip() == values[i], "fields and values are shown as they are")
            seen += 1
            mine.append("%s: %s" % (fields[i], values[i]))
    if seen:
        env.reach("features")
    names = [o for o in page.options if not o.isdigit()]
    env.check(sorted(names) == sorted(set(fields)), "fields are offered as they are")
    if "cluster/" in path:
        env.check(sorted(o for o in page.opts if ": " in o) == sorted(mine), "features are offered as they are")
    env.observe("seen", seen)


class Tokens(K.Stub):
    def index(self, doc):
        return {"text": doc["text"]}

    def render_docs_html(self, doc_keys):
        return [(k, doc["body"]) for k, doc in self.docs(doc_keys)]


def run_results(env, lens, kinds):
    """whole documents, concordances and passages of a corpus that gives text"""
    toks = [[env.pick("token %d.%d" % (d, i), 2) for i in range(n)] for d, n in enumerate(lens)]
    vals = [evil(0), evil(1)]
    docs = [("key%d%s" % (d, EVIL), {"text": [vals[x] for x in t], "body": "body %d%s" % (d, EVIL)}) for d, t in enumerate(toks)]
    idx = K.new_index(env)
    K.add_docs(env, idx, [k for k, _ in docs])
    has = {f: [d for d, t in enumerate(toks) if f - 1 in t] for f in (1, 2)}
    bits = {f: hr.BitMap(has[f]) for f in has}
    K.add_features(env, idx, [(f, "text", vals[f - 1], bits[f]) for f in (1, 2)])
    idx.db.execute("update field_summary set position_count = ?", (sum(lens),))
    positions.add_batch(env, idx, "text", [1, 2], list(enumerate(toks)))
    K.set_model(env, idx, {1: 0, 2: 0}, bits)
    web.serve(env, idx, corpus_class=lambda: Tokens(docs))
    env.schedule = "last"
    path, params = [("/index/0/", [("feature_id", "1")]), ("/index/0/cluster/0/", [])][env.pick("page", 2)]
    kind = kinds[env.pick("kind", len(kinds))]
    page = get(env, path, params + [("result_type", kind)])
    if page is None:
        return
    match = has[1] if params else sorted(set(has[1]) | set(has[2]))
    flat = lambda s: re.sub(r"\s+", " ", s).strip()
    if kind == "document":
        env.check(sorted(map(flat, page.docs)) == sorted(docs[d][1]["body"] for d in match), "documents are shown as they are")
    elif kind == "concordance":
        want = [" ".join(vals[x] for x in toks[d]) for d in match for y in toks[d] if not params or y == 0]
        env.check(sorted(map(flat, page.lines)) == sorted(want), "concordances are shown as they are")
        env.check(sorted(flat(h) for h in page.heads if "key" in h) == sorted(docs[d][0] for d in match), "keys are shown as they are")
    else:
        want = " ".join(vals[x] for d in match for x in toks[d])
        env.check(all(any(" ".join(vals[x] for x in toks[d]) in flat(t) for t in page.docs) for d in match), "passages are shown as they are")
    if match:
        env.reach(kind)
    env.observe("shown", [sorted(map(flat, page.docs)), sorted(map(flat, page.lines))])


def run_plain(env, n):
    """a plain text corpus"""
    path = os.path.join(env.tmpdir(), "corpus.db")
    c = hr.corpus.PlainTextSqliteCorpus(path)
    nasty = [env.pick("nasty %d" % i, 2) for i in range(n)]
    texts = ["text %d%s" % (i, EVIL if x else "") for i, x in enumerate(nasty)]
    c.replace_docs(texts)
    keys = list(c.keys())
    idx = K.new_index(env)
    K.add_docs(env, idx, keys)
    bits = {1: env.bits("docs", n)}
    K.add_features(env, idx, [(1, "text", "v", bits[1])])
    K.set_model(env, idx, {1: 0}, bits)
    web.serve(env, idx, corpus_class=hr.corpus.PlainTextSqliteCorpus, corpus_args=[path])
    env.schedule = "last"
    page = get(env, "/index/0/", [("feature_id", "1")])
    if page is None:
        return
    want = sorted(texts[i] for i in range(n) if env.bit(bits[1], i))
    env.check(sorted(re.sub(r"\s+", " ", t).strip() for t in page.docs) == want, "documents are shown as they are")
    if want:
        env.reach("plain")
    env.observe("shown", sorted(page.docs))


def run_posts(env, a, N, through=False):
    """Stack Exchange posts"""
    env.patch(c21, "URL", {"a": "https://a.example/" + EVIL})
    et, c = c21.setup(env)
    d = c21.dump(env, "a", a, N)
    for i, p in enumerate(d["posts"]):
        p["Body"] = "<p>body %d</p>" % i
        p["ContentLicense"] += EVIL
        if "Title" in p:
            p["Title"] += EVIL
            p["Tags"] = "<tag%d%s><shared>" % (i, TAG)
    for u in d["users"]:
        u["DisplayName"] += EVIL
    for r in d["comments"]:
        r["Text"] += EVIL
        r["ContentLicense"] += EVIL
    c21.add(et, c, env, "a", d)
    keys = c21.key_map(env, c, {"a": d})
    if through:
        idx = K.new_index(env)
        K.add_docs(env, idx, [keys["a", i] for i in range(len(d["posts"]))])
        n = len(d["posts"])
        bits = {1: env.bits("docs", n)}
        K.add_features(env, idx, [(1, "text", "v", bits[1])])
        K.set_model(env, idx, {1: 0}, bits)
        web.serve(env, idx, corpus_class=hr.corpus.StackExchangeCorpus, corpus_args=[c.db_path])
        env.schedule = "last"
        page = get(env, "/index/0/", [("feature_id", "1")])
        if page is None:
            return
        posts = [(i, page) for i in range(n) if env.bit(bits[1], i)]
        env.check(len(page.docs) >= len(posts), "every matching post is shown")
    else:
        posts = [(i, look(env, text)) for (_, i), (_, text) in zip(keys, c.render_docs_html(list(keys.values())))]
    for i, page in posts:
        p = d["posts"][i]
        e = c21.expected(env, d, p, None)
        texts = page.texts()
        env.check("body %d" % i in texts, "the body of a post is markup")
        if e["question"]:
            env.check(e["question"] in texts, "titles are shown as they are")
        for t in e["tags"]:
            env.check(t in texts, "tags are shown as they are")
        if e["author"] is not None:
            env.check(e["author"] in texts, "names of authors are shown as they are")
            env.reach("author")
        env.check(any(p["ContentLicense"] in t for t in texts), "licences are shown as they are")
        for name, text, r in e["remarks"]:
            env.check(text in texts, "comments are shown as they are")
            env.check(any(r["ContentLicense"] in t for t in texts), "licences of comments are shown as they are")
            if name is not None:
                env.check(name in texts, "names of commenters are shown as they are")
                env.reach("comment")
            if r["UserId"] is None:
                env.check(any("<Deleted User>" in t for t in texts), "a deleted user is named as such")
                env.reach("deleted")
        if p["OwnerUserId"] is None:
            env.check(any("<Deleted User>" in t for t in texts), "a deleted user is named as such")
    env.observe("posts", [i for i, _ in posts])


def run_tweets(env, T, U, kinds, through=False):
    """tweets"""
    saved = c26.TEXTS
    c26.TEXTS = [("tweet %d &amp; &lt;zz9 q=1&gt; \"'" % t, []) for t in range(T)]
    try:
        c, tweets, _ = c26.build(env, T, U, kinds, 0)
    finally:
        c26.TEXTS = saved
    db = hr.db_utilities.connect_sqlite(os.path.join(c.db_path))
    for u in range(U):
        db.execute("update user_latest set name = ?, profile_image_url = ? where user_id = ?", ("Name%d%s" % (u, EVIL), "https://img/%d%s" % (u, EVIL), u + 1))
    if db.in_transaction:
        db.execute("commit")
    db.close()
    keys = list(c.keys())
    if through:
        idx = K.new_index(env)
        K.add_docs(env, idx, keys)
        bits = {1: env.bits("docs", T)}
        K.add_features(env, idx, [(1, "text", "v", bits[1])])
        K.set_model(env, idx, {1: 0}, bits)
        web.serve(env, idx, corpus_class=hr.corpus.TwittersphereCorpus, corpus_args=[c.db_path])
        env.schedule = "last"
        page = get(env, "/index/0/", [("feature_id", "1")])
        if page is None:
            return
        shown = [(t, page) for t in range(T) if env.bit(bits[1], t)]
        env.check(len(page.docs) == len(shown), "every matching tweet is shown once")
        env.check(len(page.clusters) == 1, "the cluster is shown")
    else:
        pages = list(c.render_docs_html(keys))
        env.check([k for k, _ in pages] == keys, "every requested tweet once, in order")
        shown = [(k - 1, look(env, text)) for k, text in pages]
    for t, page in shown:
        tw = tweets[t]
        u = c26.which(env, tw["user"], range(1, U + 1)) - 1
        texts = page.texts()
        env.check(any("tweet %d & <zz9 q=1> \"'" % t == x for x in texts), "the text of a tweet is shown as it was written")
        env.check("@User%d" % u in texts, "a tweet is shown with its own user")
        env.check(any(x.startswith("Name%d%s" % (u, EVIL)) for x in texts), "names are shown as they are")
        env.check(tw["at"] in texts and tw["got"] in texts, "times are shown")
        env.check("https://twitter.com/User%d/status/%d" % (u, tw["id"]) in page.links, "leads to the tweet")
        env.check("https://twitter.com/User%d" % u in page.links, "leads to the user")
        if not through:
            env.check([x for x in texts if x in ("1", "2", "3", "4")] == ["1", "2", "3", "4"], "counts are shown")
            env.check(all(not any("User%d" % v == x.lstrip("@") for x in texts) for v in range(U) if v != u), "nothing of another user")
        env.reach("tweet")
    env.observe("tweets", [t for t, _ in shown])


SCENARIOS = {
    "values": {
        "run": run_values,
        "quick": [dict(D=2, fixed=(1, 1, 2), pages=[p]) for p in PATHS],
        "thorough": [dict(D=3, fixed=f, pages=[p]) for p in PATHS for f in ((1, 2, 1), (1, 1, 1))],
        "reach": ["features", "details"],
    },
    "results": {
        "run": run_results,
        "quick": [dict(lens=[2, 1], kinds=["document", "concordance", "passage"])],
        "thorough": [dict(lens=[2, 1, 2], kinds=["document", "concordance", "passage"])],
        "reach": ["document", "concordance", "passage"],
    },
    "plain": {"run": run_plain, "quick": [dict(n=2)], "thorough": [dict(n=4)], "reach": ["plain"]},
    "posts": {
        "run": run_posts,
        "quick": [dict(a=["QA", 1, 1], N=2), dict(a=["Q", 1, 2], N=1), dict(a=["QA", 1, 1], N=0, through=True)],
        "thorough": [dict(a=["QA", 2, 1], N=2), dict(a=["Q", 2, 2], N=2), dict(a=["QAQ", 1, 1], N=3), dict(a=["QA", 1, 1], N=2, through=True)],
        "reach": ["author", "comment", "deleted"],
    },
    "tweets": {
        "run": run_tweets,
        "quick": [dict(T=2, U=2, kinds=["", "R"]), dict(T=2, U=2, kinds=[""], through=True)],
        "thorough": [dict(T=2, U=2, kinds=["", "R", "Q", "A"]), dict(T=3, U=2, kinds=["", "R"]), dict(T=3, U=2, kinds=[""], through=True)],
        "reach": ["tweet"],
    },
}
