"""C26: tweets are indexed by their own content, retweets only as pointers."""
import os

from engine import hr
from . import common as K

BOUNDS = {
    "quick": "2 tweets by arbitrary ones of 2 users, each an original, reply, quote or retweet of the other, of itself or of a tweet that is "
    "not there; of users renamed between retrievals, with earlier retrievals of their links; up to 3 hashtags, mentions, links and labels each belonging to an arbitrary tweet; with and without positions; 14 tweets by 4 users and 38 links, mostly settled",
    "thorough": "3 tweets by arbitrary ones of 3 users, with arbitrary references between them",
}
ASSUMPTIONS = [
    "Ids and references are arbitrary; names, hashtags, links and texts are fixed distinct texts (parsing of text, links and dates is "
    "decided by concrete examples only).",
    "The tables and views of the Twittersphere database are plain tables with the columns the corpus reads.",
]
SCHEMA = """
create table metadata(key, value);
create table tweet_latest(tweet_id integer, user_id integer, text, conversation_id, created_at, retrieved_at,
    retweeted_tweet_id, quoted_tweet_id, replied_to_tweet_id, like_count, reply_count, quote_count, retweet_count);
create table directly_collected_tweet(tweet_id integer);
create table tweet_at_time(tweet_id, context_id, directly_collected);
create table collection_context(context_id, label);
create table tweet_hashtag(tweet_id, hashtag);
create table tweet_mention(tweet_id, mentioned_username);
create table tweet_url(tweet_id, retrieved_at, url);
create table url(url, retrieved_at, unwound_url, expanded_url);
create table user_latest(user_id, username, name, profile_image_url);
create table user_at_time(user_id, retrieved_at, username)
"""
TEXTS = [
    ("Hello W\u00f6rld, it\u2019s #Fun &amp; @Someone https://t.co/x end", ["hello", "w\u00f6rld", ",", "it's", "&", "end"]),
    ("https://t.co/only", []),
    ("SAME same 5&lt;6 &amp;lt;b", ["same", "same", "5", "<", "6", "&", "lt", ";", "b"]),
]
TIMES = [
    ("2021-03-04T05:06:07.890Z", ["2021-03-04T05:06:00+00:00", "2021-03-04T05:00:00+00:00", "2021-03-04T00:00:00+00:00", "2021-03-01T00:00:00+00:00", "2021-01-01T00:00:00+00:00"]),
    ("2020-12-31T23:59:59+00:00", ["2020-12-31T23:59:00+00:00", "2020-12-31T23:00:00+00:00", "2020-12-31T00:00:00+00:00", "2020-12-01T00:00:00+00:00", "2020-01-01T00:00:00+00:00"]),
    ("2021-03-04T05:59:00Z", ["2021-03-04T05:59:00+00:00", "2021-03-04T05:00:00+00:00", "2021-03-04T00:00:00+00:00", "2021-03-01T00:00:00+00:00", "2021-01-01T00:00:00+00:00"]),
]
GRAINS = ("minute", "hour", "day", "month", "year")
TAGS = ["Tag", "tAG", "Other"]
MENTIONS = ["Ann", "BOB", "ann"]
# url, unwound, expanded, the link that is indexed, its domain
URLS = [
    ("https://t.co/a", "https://Long.example/twitter.com/a", "https://bit.ly/a", "https://Long.example/twitter.com/a", "long.example"),
    ("https://t.co/b", None, "https://twitter.com/x/status/1", None, None),
    ("https://nottwitter.com/c", None, None, "https://nottwitter.com/c", "nottwitter.com"),
]
WWW = ("", "www.", "m.")
for i in range(3, 40):
    TAGS.append("Tag%d" % i)
    MENTIONS.append("Name%d" % i)
    URLS.append(("https://t.co/%d" % i, None, "https://%sSite%d.example/x/" % (WWW[i % 3], i % 9), "https://%sSite%d.example/x/" % (WWW[i % 3], i % 9), "%ssite%d.example" % (WWW[i % 3], i % 9)))
GONE = 99


class Settled:
    """the environment, in which only the named choices are left open"""

    def __init__(self, env, names):
        self.env, self.names, self.n = env, names, 0

    def __getattr__(self, name):
        return getattr(self.env, name)

    def int(self, name, lo, hi):
        if name in self.names:
            return self.env.int(name, lo, hi)
        self.n += 1
        return lo + (self.n * 2654435761 >> 9) % (hi - lo + 1)

    def pick(self, name, n):
        if name in self.names:
            return self.env.pick(name, n)
        self.n += 1
        return (self.n * 2654435761 >> 7) % n


def build(env, T, U, kinds, rows, what=(), free=None):
    if free is not None:
        env = Settled(env, free)
    path = os.path.join(env.tmpdir(), "tweets.db")
    db = hr.db_utilities.connect_sqlite(path)
    for s in SCHEMA.split(";"):
        db.execute(s)
    db.execute("insert into metadata values('twittersphere_schema_version', 15)")
    tweets = []
    for t in range(T):
        options = kinds[t] if isinstance(kinds[0], (list, tuple)) else kinds
        kind = options[env.pick("kind%d" % t, len(options))]
        tw = dict(id=t + 1, user=env.int("author%d" % t, 1, U), text=t, kind=kind, conv=100 + t, at=TIMES[t % 3][0], got="r%d" % (t % 2))
        for name, letter in (("retweeted", "R"), ("quoted", "Q"), ("replied_to", "A")):
            if letter in kind:
                x = env.int("%s%d" % (name, t), 1, T + 1)
                tw[name] = env.ite(env.eq(x, T + 1), GONE, x)
            else:
                tw[name] = None
        direct = env.pick("direct%d" % t, 2) if t and "direct" in what else 1
        tw["direct"] = direct
        tweets.append(tw)
        db.execute(
            "insert into tweet_latest values(?, ?, ?, ?, ?, ?, ?, ?, ?, 1, 2, 3, 4)",
            (tw["id"], tw["user"], TEXTS[t % 3][0], tw["conv"], tw["at"], tw["got"], tw["retweeted"], tw["quoted"], tw["replied_to"]),
        )
        if direct:
            db.execute("insert into directly_collected_tweet values(?)", (t + 1,))
    for u in range(U):
        db.execute("insert into user_latest values(?, ?, ?, ?)", (u + 1, "User%d" % u, "Name", "img"))
        # renamed between the two retrievals
        for r, name in (("r0", "Was%d"), ("r1", "User%d")):
            db.execute("insert into user_at_time values(?, ?, ?)", (u + 1, r, name % u))
    owner = {}
    for i in range(rows):
        for w, insert in (("tag", "insert into tweet_hashtag values(?, ?)"), ("mention", "insert into tweet_mention values(?, ?)")):
            o = owner[w, i] = env.int("%s%d" % (w, i), 1, T) if w in what else T
            db.execute(insert, (o, (TAGS if w == "tag" else MENTIONS)[i]))
        url, unwound, expanded, _, _ = URLS[i]
        o = owner["url", i] = env.pick("url%d" % i, T) + 1 if "url" in what else T
        got = tweets[o - 1]["got"]
        db.execute("insert into tweet_url values(?, ?, ?)", (o, got, url))
        db.execute("insert into url values(?, ?, ?, ?)", (url, got, unwound, expanded))
        # an earlier retrieval of the tweet: another link, and another target for the same link
        for u in (url, "https://t.co/old"):
            db.execute("insert into tweet_url values(?, ?, ?)", (o, "older", u))
            db.execute("insert into url values(?, ?, ?, ?)", (u, "older", "https://old.example/%d" % i, None))
        db.execute("insert into collection_context values(?, ?)", (i, "label%d" % i))
        o = owner["label", i] = env.int("label%d" % i, 1, T) if "label" in what else 1
        db.execute("insert into tweet_at_time values(?, ?, 1)", (o, i))
        db.execute("insert into tweet_at_time values(?, ?, 0)", (1, i))
    if db.in_transaction:
        db.execute("commit")
    db.close()
    return hr.corpus.TwittersphereCorpus(path), tweets, owner


def which(env, x, options):
    """the concrete value of x, one path for each"""
    for o in options:
        if env.eq(x, o):
            return o
    env.check(False, "an expected value")


def expected(env, t, tweets, owner, rows, T, U):
    """{field: list or set of values} of a tweet"""
    tw = tweets[t]
    want = {"created_" + g: {b} for g, b in zip(GRAINS, TIMES[t % 3][1])}
    user = lambda w: "User%d" % (which(env, w["user"], range(1, U + 1)) - 1)
    want["by"] = {user(tw)}

    def ref(name):
        if tw[name] is None:
            return
        x = which(env, tw[name], list(range(1, T + 1)) + [GONE])
        want[name + "_tweet_id"] = {x}
        if x != GONE:
            # the name it had when that tweet was retrieved
            u = which(env, tweets[x - 1]["user"], range(1, U + 1)) - 1
            want[name + "_user"] = {("Was%d" if tweets[x - 1]["got"] == "r0" else "User%d") % u}

    if tw["retweeted"] is not None:
        ref("retweeted")
        return want
    ref("quoted")
    ref("replied_to")
    mine = lambda what: [i for i in range(rows) if env.eq(owner[what, i], t + 1)]
    want["text"] = TEXTS[t % 3][1]
    want["#"] = {TAGS[i].lower() for i in mine("tag")}
    want["@"] = {MENTIONS[i].lower() for i in mine("mention")}
    want["url"] = {URLS[i][3] for i in mine("url") if URLS[i][3]}
    want["domain"] = {URLS[i][4] for i in mine("url") if URLS[i][4]}
    want["collection_label"] = {"label%d" % i for i in mine("label")}
    want["conversation_id"] = {tw["conv"]}
    return want


def clean(features):
    """the features, without absent values and empty fields"""
    r = {}
    for f, vs in features.items():
        vs = [v for v in vs if v is not None]
        if vs:
            r[f] = vs
    return r


def now(vs, field):
    """the values in order; of a referenced tweet's user either name will do"""
    return sorted(set("User" + v[3:] if field.endswith("_user") and v.startswith("Was") else v for v in vs), key=str)


def settle(env, vs, T):
    out = []
    for v in vs:
        if env.symbolic and not isinstance(v, (str, int)) or type(v).__name__ == "SymInt":
            v = which(env, v, list(range(1, T + 1)) + [GONE])
        out.append(v)
    return out


def run_doc(env, T, U, kinds, rows, what=(), free=None):
    c, tweets, owner = build(env, T, U, kinds, rows, what, free)
    keys = list(c.keys())
    env.check(keys == [t + 1 for t in range(T) if tweets[t]["direct"]], "every directly collected tweet is a document, once")
    for key, doc in c.docs(keys):
        t = key - 1
        got = {f: settle(env, vs, T) for f, vs in clean(c.index(doc)).items()}
        want = {f: v for f, v in expected(env, t, tweets, owner, rows, T, U).items() if v}
        for f in GRAINS:
            env.check("created_" + f in got, "every tweet gets its five time buckets")
        if tweets[t]["retweeted"] is not None:
            env.reach("retweet")
            env.check(not set(got) - set(want), "a retweet is indexed only as a pointer")
        else:
            env.reach("original")
        env.check(sorted(got) == sorted(want), "exactly the fields of the tweet")
        for f in sorted(set(got) & set(want)):
            if f == "text":
                env.check(got[f] == want[f], "text: the tokens in order")
            else:
                env.check(now(got[f], f) == now(want[f], f), f + ": exactly the tweet's own")
        env.observe("doc%d" % t, sorted((f, sorted(map(str, vs))) for f, vs in got.items()))


def run_index(env, T, U, kinds, positions, free=None):
    """through indexing into an index"""
    c, tweets, owner = build(env, T, U, kinds, 0, free=free)
    idx = K.new_index(env, corpus=c)
    idx.index(index_positions=positions)
    db = K.reader(env, idx)
    ids = {k: d for d, k in db.execute("select doc_id, doc_key from doc_key")}
    got = {}
    for field, value, docs in db.execute("select field, value, doc_ids from inverted_index"):
        if type(value).__name__ == "SymInt":
            value = which(env, value, list(range(1, T + 1)) + [GONE])
        for t in range(T):
            if env.bit(docs, ids[t + 1]):
                got.setdefault((t, field), []).append(value)
    for t in range(T):
        want = expected(env, t, tweets, owner, 0, T, U)
        mine = {f: vs for (u, f), vs in got.items() if u == t}
        env.check(sorted(mine) == sorted(f for f, v in want.items() if v), "exactly the fields of the tweet are indexed")
        for f, vs in mine.items():
            env.check(now(vs, f) == now(want.get(f, ()), f), f + ": exactly the tweet's own")
    env.reach("indexed")
    env.observe("index", sorted((t, f, sorted(map(str, v))) for (t, f), v in got.items()))


ALL = ["", "R", "Q", "A", "QA", "RQ"]
SCENARIOS = {
    "doc": {
        "run": run_doc,
        "quick": [
            dict(T=2, U=1, kinds=["", "R"], rows=3, what=["tag"]),
            dict(T=2, U=1, kinds=["", "R"], rows=3, what=["mention"]),
            dict(T=2, U=1, kinds=["", "R"], rows=3, what=["url"]),
            dict(T=2, U=1, kinds=["", "R"], rows=3, what=["label", "direct"]),
            dict(T=2, U=1, kinds=[""], rows=1, what=["label", "tag", "url", "mention"]),
            dict(T=2, U=2, kinds=[ALL, [""]], rows=0),
            dict(T=2, U=2, kinds=[["R", "QA"], ["R", "A"]], rows=0),
            dict(T=2, U=1, kinds=[["RQ", "RQA"], ["", "R"]], rows=1, what=["url"]),
        ],
        "thorough": [
            dict(T=2, U=2, kinds=["", "R"], rows=2, what=["label", "tag", "url", "mention", "direct"]),
            dict(T=2, U=2, kinds=ALL, rows=0),
            dict(T=3, U=2, kinds=["", "R", "QA"], rows=0),
            dict(T=3, U=1, kinds=[""], rows=2, what=["tag", "url"]),
            dict(T=3, U=1, kinds=["", "R"], rows=2, what=["mention", "label"]),
        ],
        "reach": ["retweet", "original"],
    },
    "large": {
        "run": run_doc,
        "quick": [
            dict(T=14, U=4, kinds=["", "R", "Q", "A", "QA"], rows=30, what=["label", "tag", "url", "mention", "direct"], free=["kind5", "tag7", "author3"]),
            dict(T=3, U=2, kinds=[["", "Q"], ["R", ""], [""]], rows=38, what=["tag", "url", "mention"], free=["kind0", "kind1", "url20"]),
        ],
        "thorough": [dict(T=60, U=9, kinds=ALL, rows=38, what=["label", "tag", "url", "mention", "direct"], free=["kind5", "quoted20", "tag7", "author3"])],
        "reach": ["retweet", "original"],
    },
    "index": {
        "run": run_index,
        "quick": [dict(T=2, U=1, kinds=["", "R", "QA"], positions=p) for p in (False, True)]
        + [dict(T=2, U=1, kinds=[["RQ"], ["RA", ""]], positions=True), dict(T=14, U=4, kinds=["", "R", "Q", "A", "QA"], positions=True, free=["kind5", "author3"])],
        "thorough": [dict(T=2, U=2, kinds=ALL, positions=p) for p in (False, True)],
        "reach": ["indexed"],
    },
}
