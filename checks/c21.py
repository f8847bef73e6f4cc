"""C21: Stack Exchange documents are assembled from their own site and post only."""
import html
import json
import os
import re

from engine import hr
from . import common as K
from .c07 import Failing

BOUNDS = {
    "quick": "two sites of 1-3 posts, 1-2 users and 0-2 comments, with arbitrary (possibly equal) numeric ids, authors (the site's own user -1 among them), parents and "
    "comment targets among 3 ids; re-import of one site with changed and new rows; a failure at any statement or any element of an import; sites of up to 11 posts, 6 users and 30 comments with three free relations",
    "thorough": "more posts, users and comments, 4 ids",
}
ASSUMPTIONS = [
    "Ids are unique within one site's dump, as in every dump; tags, titles and bodies are fixed distinct texts.",
    "XML attribute values are handed to the code as values (the XML parser itself is trusted).",
    "Newer data contains what older data contained (the documented condition for updating in place).",
]
MARK = "\u00a7"


class Elements:
    """ElementTree whose attribute values may be solver variables: the file
    holds a mark for each such value"""

    def __init__(self, env):
        import xml.etree.ElementTree as ET

        self.ET, self.values, self.env = ET, [], env
        self.hook = None

    def attr(self, v):
        if isinstance(v, str) or not self.env.symbolic:
            return str(v)
        self.values.append(v)
        return "%s%d" % (MARK, len(self.values) - 1)

    def get(self, s):
        return self.values[int(s[1:])] if s.startswith(MARK) else s

    def fill(self, elem):
        for e in elem.iter():
            for k, v in list(e.attrib.items()):
                dict.__setitem__(e.attrib, k, self.get(v))
        return elem

    def iterparse(self, *a, **k):
        for ev, elem in self.ET.iterparse(*a, **k):
            if isinstance(ev, str) and elem.tag == "row":
                self.fill(elem)
            yield ev, elem

    def parse(self, *a, **k):
        t = self.ET.parse(*a, **k)
        self.fill(t.getroot())
        return t

    def __getattr__(self, name):
        return getattr(self.ET, name)

    def write(self, dir, name, rows, broken=None):
        root = self.ET.Element(name)
        for r in rows:
            self.ET.SubElement(root, "row", {k: self.attr(v) for k, v in r.items() if v is not None})
        text = self.ET.tostring(root, encoding="unicode")
        if broken is not None:
            parts = text.split("<row")
            text = "<row".join(parts[: broken + 1]) + "<row <"
        p = os.path.join(dir, name + ".xml")
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)
        return p


def setup(env):
    et = Elements(env)
    if env.symbolic and hasattr(hr.corpus, "ElementTree"):
        env.patch(hr.corpus, "ElementTree", et)
    c = hr.corpus.StackExchangeCorpus(os.path.join(env.tmpdir(), "corpus.db"))
    return et, c


def distinct(env, xs):
    for i, a in enumerate(xs):
        for b in xs[:i]:
            env.assume(env.not_(env.eq(a, b)))


BODY = "<p>body %s</p><pre><code>code <b>bold %s</b> end</code></pre><p>more %s</p>"


def uid_of(env, name, N):
    """the id of a user: -1 is the site itself"""
    u = env.int(name, 0, N)
    return env.ite(env.eq(u, 0), -1, u)


def dump(env, tag, shape, N, ids=None, version=""):
    """A dump of one site: shape (post types, number of users, number of
    comments).  Returns rows as the dump has them."""
    types, nu, nc = shape
    fixed = N == 0
    N = N or 1
    posts, users, comments = [], [], []
    old = ids or {}
    for i, t in enumerate(types):
        pid = old["post"][i] if i < len(old.get("post", ())) else i + 1 if fixed else env.int("%s%s.post%d" % (tag, version, i), 1, N)
        name = "%s%d%s" % (tag, i, version)
        p = {
            "Id": pid,
            "PostTypeId": {"Q": "1", "A": "2", "W": "4"}[t],
            "CreationDate": "2021-0%d-1%dT1%d:30:40.123" % (i + 1, i, i) if i else "2021-01-01T00:00:00.000",
            "Score": "1",
            "Body": BODY % (name, name, name) if i != 1 else None,
            "ContentLicense": "licence " + name,
            "OwnerUserId": uid_of(env, "%s%s.owner%d" % (tag, version, i), N) if not fixed and env.pick("%s%s.owned%d" % (tag, version, i), 2) else 1 if fixed else None,
        }
        if t == "Q":
            p["Title"] = "title " + name
            p["Tags"] = "<%sx%d><Shared-C#>" % (tag, i) if i == 0 else "<%sy%d%s>" % (tag, i, version and "-" + version)
        if t == "A":
            p["ParentId"] = env.int("%s%s.parent%d" % (tag, version, i), 1, N)
            env.assume(env.not_(env.eq(p["ParentId"], pid)))
        posts.append(p)
    distinct(env, [p["Id"] for p in posts])
    for i in range(nu):
        uid = old["user"][i] if i < len(old.get("user", ())) else i + 1 if fixed else uid_of(env, "%s%s.user%d" % (tag, version, i), N)
        users.append({"Id": uid, "DisplayName": "user %s%d%s" % (tag, i, version), "Reputation": "1", "AccountId": str(i % 3 + 1)})
    distinct(env, [u["Id"] for u in users])
    for i in range(nc):
        cid = old["comment"][i] if i < len(old.get("comment", ())) else i + 1 if fixed else env.int("%s%s.comment%d" % (tag, version, i), 1, N)
        comments.append(
            {
                "Id": cid,
                "PostId": env.int("%s%s.on%d" % (tag, version, i), 1, N),
                "UserId": uid_of(env, "%s%s.by%d" % (tag, version, i), N) if fixed or env.pick("%s%s.anon%d" % (tag, version, i), 2) == 0 else None,
                "Text": "remark %s%d%s" % (tag, i, version),
                "ContentLicense": "terms %s%d%s" % (tag, i, version),
            }
        )
    distinct(env, [c["Id"] for c in comments])
    return {"posts": posts, "users": users, "comments": comments}


URL = {"a": "https://a.example", "b": "https://A_example"}


def add(et, c, env, site, d, broken=None):
    dir = env.tmpdir()
    files = [et.write(dir, n, d[n], broken[1] if broken and broken[0] == n else None) for n in ("posts", "comments", "users")]
    c.add_site_data(*files, URL[site])


def key_map(env, c, dumps):
    """document key of every post: by site and text (bodies, titles and
    licences are unique)"""
    rows = list(c.db.execute("select doc_id, site_url, ContentLicense from Post inner join Site using(site_id)"))
    keys = {}
    for site, d in dumps.items():
        for i, p in enumerate(d["posts"]):
            if p["PostTypeId"] == "4":
                continue
            got = [r["doc_id"] for r in rows if r["site_url"] == URL[site] and r["ContentLicense"] == p["ContentLicense"]]
            env.check(len(got) == 1, "every question and answer of every site is one document")
            if got:
                keys[site, i] = got[0]
    env.check(sorted(c.keys()) == sorted(keys.values()), "nothing else is a document")
    return keys


def who(env, d, uid, nobody):
    """display name of the user (a choice among concrete names: forks)"""
    if uid is None:
        return nobody
    for u in d["users"]:
        if env.eq(u["Id"], uid):
            return u["DisplayName"]
    return nobody


def expected(env, d, p, nobody):
    q = p
    if p["PostTypeId"] == "2":
        q = None
        for o in d["posts"]:
            if o["PostTypeId"] != "4" and env.eq(o["Id"], p["ParentId"]):
                q = o
    tags = set(re.findall("<([^>]*)>", (q or {}).get("Tags") or ""))
    remarks = [(who(env, d, r["UserId"], nobody), r["Text"], r) for r in d["comments"] if env.eq(r["PostId"], p["Id"])]
    return {
        "author": who(env, d, p["OwnerUserId"], nobody),
        "tags": tags,
        "remarks": remarks,
        "title": p.get("Title"),
        "question": (q or {}).get("Title"),
    }


def check_docs(env, c, dumps, label="", form=None):
    """the documents are exactly those of the dumps"""
    keys = key_map(env, c, dumps)
    names = {k: n for n, k in keys.items()}
    order = sorted(keys.values())
    if form == "given":
        order = order[::-1]
        docs = list(c.docs(order))
    else:
        docs = sorted(c.docs(), key=lambda x: x[0])
    env.check([k for k, _ in docs] == order, label + "every requested document once, in order")
    for k, doc in docs:
        if k not in names:
            continue
        site, i = names[k]
        d = dumps[site]
        p = d["posts"][i]
        e = expected(env, d, p, "<Deleted User>")
        env.check(doc["site_url"] == URL[site], label + "site of a post")
        env.check(env.same(doc["Id"], p["Id"]), label + "id of a post")
        env.check(doc["Body"] == p["Body"] and doc["Title"] == e["title"], label + "text of a post")
        env.check(doc["DisplayName"] == e["author"], label + "author of a post")
        env.check(set(doc["Tags"]) == e["tags"], label + "tags of the post's own question")
        env.check(
            sorted((r["DisplayName"], r["Text"]) for r in doc["UserComments"]) == sorted(r[:2] for r in e["remarks"]),
            label + "comments on the post and who made them",
        )
        f = c.index(doc)
        words = lambda s: re.findall(r"\w+", s or "")
        name = "%s%d" % (site, i)
        body = re.sub("<pre>.*?</pre>", " ", p["Body"] or "")
        env.check(
            [w for t in f["Post"] for w in words(t)] == words((e["title"] or "").lower()) + words(re.sub("<[^>]*>", " ", body).lower()),
            label + "indexed words of a post",
        )
        env.check([w for t in f["CodeBlock"] for w in words(t)] == words(re.sub("<[^>]*>", " ", " ".join(re.findall("<code>(.*?)</code>", p["Body"] or ""))).lower()), label + "indexed code of a post")
        env.check(set(f["UserPosting"]) == {e["author"]}, label + "indexed author")
        env.check(set(f["Tag"]) == e["tags"], label + "indexed tags")
        env.check(set(f["UserCommenting"]) == {r[0] for r in e["remarks"]}, label + "indexed commenters")
        env.check(
            sorted(w for t in f["Comment"] for w in words(t)) == sorted(w for r in e["remarks"] for w in words(r[1].lower())),
            label + "indexed comments",
        )
        env.check(set(f["Site"]) == {URL[site]} and set(f["PostType"]) == {"Question" if p["PostTypeId"] == "1" else "Answer"}, label + "indexed site and type")
        when = p["CreationDate"]
        env.check(
            [set(f["created_" + g]) for g in ("day", "month", "year")]
            == [{when[:10] + "T00:00:00"}, {when[:7] + "-01T00:00:00"}, {when[:4] + "-01-01T00:00:00"}],
            label + "indexed time buckets",
        )
    env.check(not c.db.in_transaction, label + "no transaction is left open")
    return keys


def check_rendered(env, c, dumps, keys):
    order = sorted(keys.values(), reverse=True)
    names = {k: n for n, k in keys.items()}
    table = [(k, dict(r)) for k, r in c.render_docs_table(order)]
    pages = list(c.render_docs_html(order))
    env.check([k for k, _ in table] == order and [k for k, _ in pages] == order, "every requested document once, in order")
    for (k, r), (_, page) in zip(table, pages):
        site, i = names[k]
        d = dumps[site]
        p = d["posts"][i]
        e = expected(env, d, p, None)
        env.check(all(x in r for x in c.table_fields), "every table field has a value")
        env.check(env.same([r["Id"], r["site_url"], r["Body"], r["ContentLicense"]], [p["Id"], URL[site], p["Body"], p["ContentLicense"]]), "row: the post's own data")
        env.check(r["DisplayName"] == e["author"] and env.same(r["OwnerUserId"], p["OwnerUserId"]), "row: author")
        env.check(r["QuestionTitle"] == e["question"], "row: title of the post's own question")
        env.check(sorted(x for x in r["tags"].split(", ") if x) == sorted(e["tags"]), "row: tags of the post's own question")
        env.check(
            sorted((x["Text"], x["DisplayName"] or "", x["ContentLicense"]) for x in json.loads(r["comments"]))
            == sorted((t, n or "", x["ContentLicense"]) for n, t, x in e["remarks"]),
            "row: comments",
        )
        page = html.unescape(str(page))
        flat = re.sub(r"\s+", " ", page)
        env.check(("<em>%s</em>" % (e["question"],)) in page and URL[site] in page, "page: title and site")
        env.check((p["Body"] or "None") in page and p["ContentLicense"] in page, "page: text and licence")
        env.check(set(re.findall(r"<li>(\S+)\s", page)) - {"remark"} == e["tags"], "page: tags")
        got = []
        for x in re.findall(r"<li>(remark \S+) <small> Copyright (terms \S+) by (.*?) </small>", flat):
            got.append((x[0], x[1], re.sub("^(None|Deleted User|.Deleted User.)$", "", re.sub("<[^>]*>", "", x[2]).strip())))
        env.check(sorted(got) == sorted((t, x["ContentLicense"], n or "") for n, t, x in e["remarks"] if True), "page: comments and who made them")
        head = flat.split("<small>")[1].split("</small>")[0]
        if p["OwnerUserId"] is not None:
            env.check((e["author"] or "None") in head, "page: author")
        for other, od in dumps.items():
            for j, o in enumerate(od["posts"]):
                if (other, j) != (site, i):
                    env.check(o["ContentLicense"] not in page and (o["Body"] or "\0") not in page, "page: nothing of another post")
    env.reach("rendered")


def run_import(env, a, b, N, render=False, form=None):
    et, c = setup(env)
    dumps = {"a": dump(env, "a", a, N), "b": dump(env, "b", b, N)}
    add(et, c, env, "a", dumps["a"])
    add(et, c, env, "b", dumps["b"])
    keys = check_docs(env, c, dumps, form=form)
    if render:
        check_rendered(env, c, dumps, keys)
    env.reach("imported")


def big_dump(env, tag, types, nu, nc, free, version="", salt=0):
    """A larger dump with settled ids and relations; `free` of the answers,
    owners and comments may belong to any of three."""
    posts, users, comments = [], [], []
    questions = [i for i, t in enumerate(types) if t == "Q"]
    left = list(free)

    def relation(kind, i, settled, choices):
        if kind in left:
            left.remove(kind)
            return choices[env.pick("%s%s.%s%d" % (tag, version, kind, i), len(choices))]
        return settled

    uids = [3 * u - 1 if u != 0 else -1 for u in range(nu)]
    pids = [2 * i + 1 for i in range(len(types))]
    qids = [pids[i] for i in questions]
    for i, t in enumerate(types):
        name = "%s%d%s" % (tag, i, version)
        p = {
            "Id": pids[i],
            "PostTypeId": {"Q": "1", "A": "2", "W": "4"}[t],
            "CreationDate": "20%d-%02d-%02dT1%d:30:40.123" % (10 + i, i % 12 + 1, 28 - i % 28, i % 10),
            "Score": "1",
            "Body": BODY % (name, name, name),
            "ContentLicense": "licence %s." % name,
            "OwnerUserId": relation("owner", i, uids[(5 * i + salt) % nu] if i % 4 else 999, uids[:2] + [998]),
        }
        if t == "Q":
            p["Title"] = "title " + name
            p["Tags"] = "".join("<%st%d>" % (tag, (i * j + j + salt) % 17) for j in range(i % 6)) or None
        if t == "A":
            p["ParentId"] = relation("parent", i, qids[(3 * i + salt) % len(qids)], qids[:2] + [997])
        posts.append(p)
    for u in uids:
        users.append({"Id": u, "DisplayName": "user %s%d%s." % (tag, u, version), "Reputation": "1", "AccountId": str(2 * u + 1)})
    for i in range(nc):
        comments.append(
            {
                "Id": 5 * i + 2,
                "PostId": relation("on", i, pids[(i * i + salt) % len(pids)] if i % 3 else pids[0], pids[:2] + pids[-1:]),
                "UserId": relation("by", i, uids[(2 * i + salt) % nu] if i % 5 else None, uids[-2:] + [None]),
                "Text": "remark %s%d%s" % (tag, i, version),
                "ContentLicense": "terms %s%d%s" % (tag, i, version),
            }
        )
    return {"posts": posts, "users": users, "comments": comments}


def run_big(env, a, b, newer=None):
    """larger sites, and a newer dump of the first"""
    et, c = setup(env)
    dumps = {"a": big_dump(env, "a", *a), "b": big_dump(env, "b", *b, salt=1)}
    add(et, c, env, "a", dumps["a"])
    add(et, c, env, "b", dumps["b"])
    if newer:
        before = key_map(env, c, dumps)
        new = big_dump(env, "a", *newer, "new")
        for o, n in zip(dumps["a"]["posts"], new["posts"]):
            n["Tags"] = (o.get("Tags") or "") + (n.get("Tags") or "") or None
        dumps["a"] = new
        add(et, c, env, "a", new)
    keys = check_docs(env, c, dumps)
    if newer:
        for k in before:
            env.check(keys.get(k) == before[k], "posts keep their document keys")
    check_rendered(env, c, dumps, keys)
    env.reach("imported")


def ids_of(d):
    return {"post": [p["Id"] for p in d["posts"]], "user": [u["Id"] for u in d["users"]], "comment": [x["Id"] for x in d["comments"]]}


def run_update(env, a, b, newer, N, render=False):
    """a newer dump of the first site"""
    et, c = setup(env)
    dumps = {"a": dump(env, "a", a, N), "b": dump(env, "b", b, N)}
    add(et, c, env, "a", dumps["a"])
    add(et, c, env, "b", dumps["b"])
    before = key_map(env, c, dumps)
    new = dump(env, "a", newer, N, ids_of(dumps["a"]), "new")
    for o, n in zip(dumps["a"]["posts"], new["posts"]):
        n["Tags"] = (o.get("Tags") or "") + (n.get("Tags") or "") or None
    dumps["a"] = new
    add(et, c, env, "a", new)
    keys = check_docs(env, c, dumps)
    for k in before:
        env.check(keys.get(k) == before[k], "posts keep their document keys")
    if render:
        check_rendered(env, c, dumps, keys)
    env.reach("updated")


def run_fault(env, a, newer, N, how, first):
    """an import that fails, of a new site or of newer data"""
    et, c = setup(env)
    old = dump(env, "a", a, N)
    dumps = {}
    if first != "none":
        add(et, c, env, "a", old)
        dumps["a"] = old
    site = "a" if first == "same" else "b"
    new = dump(env, site, newer, N, ids_of(old) if site == "a" else None, "new" if site == "a" else "")
    broken = None
    hook = Failing(env, how == "interrupt")
    if how == "xml":
        part = ("posts", "comments", "users")[env.pick("part", 3)]
        broken = (part, env.pick("row", len(new[part]) + 1))
    else:
        env.faults(hook)
    err = None
    try:
        add(et, c, env, site, new, broken)
    except (Exception, KeyboardInterrupt) as e:
        err = e
    env.faults(None)
    if how != "xml" and not hook.fired:
        env.check(err is None, "without a failure the import succeeds")
        return
    env.check(err is not None, "the failure reaches the caller")
    if how == "interrupt":
        env.check(isinstance(err, KeyboardInterrupt), "an interrupt reaches the caller as an interrupt")
    env.check(not c.db.in_transaction, "no transaction is left open")
    if first != "none":
        check_docs(env, c, dumps, "after the failure: ")
    else:
        env.check(list(c.db.execute("select 1 from sqlite_master where name = 'Post'")) == [] or list(c.keys()) == [], "after the failure: no documents")
    other = hr.corpus.StackExchangeCorpus(c.db_path)
    if first != "none":
        check_docs(env, other, dumps, "after the failure, read anew: ")
    env.reach("failed")
    add(et, c, env, site, new)
    if site == "a":
        for o, n in zip(old["posts"], new["posts"]):
            n["Tags"] = (o.get("Tags") or "") + (n.get("Tags") or "") or None
    dumps[site] = new
    check_docs(env, other, dumps, "afterwards: ")


SCENARIOS = {
    "import": {
        "run": run_import,
        "quick": [
            dict(a=["QA", 1, 1], b=["Q", 1, 1], N=2),
            dict(a=["QAQ", 0, 0], b=["QQ", 0, 0], N=3, form="given"),
            dict(a=["QW", 2, 0], b=["Q", 1, 0], N=2, form="given"),
            dict(a=["QA", 0, 1], b=["Q", 0, 0], N=2, render=True),
            dict(a=["Q", 1, 1], b=["Q", 1, 0], N=2, render=True),
            dict(a=["QQ", 0, 2], b=["A", 0, 1], N=2),
        ],
        "thorough": [
            dict(a=["QA", 1, 1], b=["Q", 1, 1], N=2, render=True),
            dict(a=["QAQ", 1, 1], b=["QA", 0, 1], N=3, render=True),
            dict(a=["QAQ", 1, 2], b=["QA", 1, 1], N=3),
            dict(a=["QQA", 0, 3], b=["AQ", 1, 2], N=3),
        ],
        "reach": ["imported", "rendered"],
    },
    "big": {
        "run": run_big,
        "quick": [
            dict(a=["QAQQAAQWQA", 6, 24, ["parent", "on", "by"]], b=["QQA", 2, 7, ["owner"]]),
            dict(a=["QAQQ", 3, 6, ["on"]], b=["QA", 2, 1, []], newer=["QAQQAQQAQQA", 5, 30, ["parent"]]),
        ],
        "thorough": [
            dict(a=["QAQQAAQWQA" * 5, 25, 150, ["parent", "on", "by"]], b=["QQA" * 4, 12, 30, ["owner", "on"]]),
            dict(a=["QAQQ" * 3, 13, 36, ["on"]], b=["QA", 2, 1, []], newer=["QAQQ" * 3 + "QAQQAQQAQQA", 15, 60, ["parent", "parent", "by"]]),
        ],
        "reach": ["imported", "rendered"],
    },
    "update": {
        "run": run_update,
        "quick": [
            dict(a=["QA", 1, 1], b=["Q", 1, 0], newer=["QA", 1, 1], N=2),
            dict(a=["Q", 0, 0], b=["Q", 0, 0], newer=["QA", 0, 1], N=2, render=True),
            dict(a=["QA", 1, 1], b=["QA", 1, 1], newer=["QAQ", 2, 2], N=0, render=True),
            dict(a=["QA", 0, 0], b=["Q", 0, 0], newer=["QQ", 0, 1], N=2),
            dict(a=["QQ", 0, 0], b=["Q", 0, 0], newer=["QA", 0, 0], N=2),
        ],
        "thorough": [
            dict(a=["Q", 0, 0], b=["Q", 0, 1], newer=["QA", 1, 1], N=2, render=True),
            dict(a=["QA", 1, 1], b=["QA", 1, 1], newer=["QAQ", 2, 2], N=3, render=True),
        ],
        "reach": ["updated"],
    },
    "fault": {
        "run": run_fault,
        "quick": [dict(a=["Q", 1, 1], newer=["QA", 1, 2], N=0, how=h, first=f) for h in ("xml", "error", "interrupt") for f in ("other", "same", "none")]
        + [dict(a=["Q", 0, 0], newer=["QA", 0, 1], N=2, how="error", first="same")],
        "thorough": [dict(a=["Q", 1, 1], newer=["QA", 1, 1], N=2, how=h, first=f) for h in ("xml", "error", "interrupt") for f in ("other", "same", "none")],
        "reach": ["failed"],
    },
}
