"""C20: the plain text corpus stores and returns every document faithfully."""
import json
import os

from engine import hr
from . import common as K
from .c07 import Failing

BOUNDS = {
    "quick": "0-2 arbitrary texts replaced by 0-3 arbitrary texts; every list of up to 3 keys; a failure of the texts at any point or "
    "of any statement (a database error or an interrupt); files of up to 3 lines, each any of 23 line forms (plain, quoted, escaped, broken quotes, "
    "blank, unusual line separators), the last with or without line end; 40 texts or 50 lines of which one is arbitrary",
    "thorough": "up to 4 texts, lists of up to 4 keys, 4 lines",
}
ASSUMPTIONS = [
    "Texts of replaced documents are opaque values; the lines of a text file are taken from a list of forms.",
    "A failing statement has no effect; interrupts arrive between statements.",
]


def corpus(env, path=None):
    return hr.corpus.PlainTextSqliteCorpus(path or os.path.join(env.tmpdir(), "corpus.db"))


def check_content(env, c, texts, label=""):
    """exactly these documents, in order"""
    keys = list(c.keys())
    env.check(len(keys) == len(texts) and len(set(keys)) == len(keys), label + "one key for each text")
    if len(keys) != len(texts):
        return []
    docs = list(c.docs())
    env.check([k for k, _ in docs] == keys, label + "all documents, under their keys")
    env.check(env.same([d["text"] for _, d in docs], list(texts)), label + "the texts, in order")
    env.check(not c.db.in_transaction, label + "reading leaves no transaction open")
    return keys


def run_replace(env, n, m, fault):
    old = [env.val("old%d" % i, 3) for i in range(n)]
    new = [env.val("new%d" % i, 3) for i in range(m)]
    c = corpus(env)
    c.replace_docs(old)
    check_content(env, c, old, "first: ")
    at = env.pick("text fails at", m + 2) - 1 if fault == "texts" else -1

    def texts():
        for i, t in enumerate(new):
            if i == at:
                raise ValueError("injected failure")
            yield t
        if at == m:
            raise ValueError("injected failure")

    interrupt = fault == "statement" and env.pick("interrupt", 2) == 1
    hook = Failing(env, interrupt)
    if fault == "statement":
        env.faults(hook)
    err = None
    try:
        c.replace_docs(texts())
    except (Exception, KeyboardInterrupt) as e:
        err = e
    env.faults(None)
    other = corpus(env, c.db_path)
    if at >= 0 or hook.fired:
        env.check(err is not None, "the failure reaches the caller")
        env.check(isinstance(err, KeyboardInterrupt if interrupt else ValueError if at >= 0 else hr.sqlite3.Error), "the failure itself reaches the caller")
        env.check(not c.db.in_transaction, "no transaction is left open")
        check_content(env, c, old, "after the failure: ")
        check_content(env, other, old, "after the failure, read anew: ")
        c.replace_docs(new)
        check_content(env, c, new, "afterwards: ")
        check_content(env, other, new, "afterwards, read anew: ")
        env.reach("failed")
        return
    env.check(err is None, "replacing succeeds")
    check_content(env, c, new)
    check_content(env, other, new, "read anew: ")
    env.reach("replaced")


def run_read(env, n, L):
    """reading by keys, in every form"""
    texts = [env.val("t%d" % i, 3) for i in range(n)]
    c = corpus(env)
    c.replace_docs(iter(texts))
    keys = check_content(env, c, texts)
    env.assume(len(keys) == n)
    want = [keys[env.pick("key%d" % i, n)] for i in range(env.pick("len", L + 1))] if n else []
    pos = [keys.index(k) for k in want]
    form = env.pick("form", 3)
    arg = (lambda: [list(want), tuple(want), iter(list(want))][form])
    expect = [(k, texts[i]) for k, i in zip(want, pos)]
    env.check(env.same([(k, d["text"]) for k, d in c.docs(arg())], expect), "requested documents, under their own keys, in order")
    env.check(env.same([(k, d["text"]) for k, d in c.docs(doc_keys=arg())], expect), "requested documents by name of the argument")
    env.check(env.same([tuple(x) for x in c.render_docs_html(arg())], expect), "HTML of the requested documents")
    table = [(k, dict(d)) for k, d in c.render_docs_table(arg())]
    env.check(env.same(table, [(k, {"text": t}) for k, t in expect]), "table rows of the requested documents")
    if want:
        env.check(env.same([(k, d["text"]) for k, d in c[want[0]]], expect[:1]), "a single document")
    env.check(env.same([(k, d["text"]) for k, d in c], list(zip(keys, texts))), "iteration gives all documents")
    # a copy in another process sees the same
    import pickle

    state = c.__getstate__()
    d = hr.corpus.PlainTextSqliteCorpus.__new__(hr.corpus.PlainTextSqliteCorpus)
    d.__setstate__(state)
    env.check(env.same([(k, x["text"]) for k, x in d.docs(arg())], expect), "a shipped copy reads the same documents")
    # two reads interleaved
    if want:
        a, b = c.docs(arg()), c.docs()
        got = [next(a), next(b)]
        env.check(env.same([(k, x["text"]) for k, x in got], [expect[0], (keys[0], texts[0])]), "interleaved reads")
        a.close()
        b.close()
    env.check(not c.db.in_transaction, "reading leaves no transaction open")
    env.reach("read")


def run_long(env, n, m):
    """many documents, of which one is arbitrary"""
    at = env.pick("arbitrary", 3) * (m // 2 - 1)
    texts = [env.val("t", 3) if i == at else env.vconst(5 + i % 17) for i in range(m)]
    c = corpus(env)
    c.replace_docs([env.vconst(30 + i) for i in range(n)])
    c.replace_docs(iter(texts))
    keys = check_content(env, c, texts)
    env.assume(len(keys) == m)
    k = (m, m - 1, m // 2)[env.pick("keys", 3)]
    r = env.pick("first", 3) * (m // 3)
    pos = [(7 * i + r) % m for i in range(k)] + [r]
    expect = [(keys[i], texts[i]) for i in pos]
    arg = [keys[i] for i in pos]
    env.check(env.same([(k, d["text"]) for k, d in c.docs(arg)], expect), "requested documents, under their own keys, in order")
    env.check(env.same([tuple(x) for x in c.render_docs_html(arg)], expect), "HTML of the requested documents")
    env.check(env.same([(k, dict(d)) for k, d in c.render_docs_table(arg)], [(k, {"text": t}) for k, t in expect]), "table rows of the requested documents")
    env.check(not c.db.in_transaction, "reading leaves no transaction open")
    env.reach("read")


def run_long_file(env, n):
    """a file of many lines, one of them of any form"""
    at = env.pick("line", 3) * (n // 2 - 1)
    run_file(env, n, ALL, 1, [None if i == at else i * 5 % len(LINES) for i in range(n)])


LINES = [
    ("plain words", "plain words"),
    ("  leading and trailing  ", "  leading and trailing  "),
    ("", None),
    (" \t ", None),
    (json.dumps("escaped \n two \"lines\""), "escaped \n two \"lines\""),
    (json.dumps("unicod\u00e9 \u2028 \x85"), "unicod\u00e9 \u2028 \x85"),
    ('"hello" she said "goodbye"', '"hello" she said "goodbye"'),
    ('"only opened', '"only opened'),
    ('only closed"', 'only closed"'),
    ('"', '"'),
    ('one\x85two\u2028three\x0bfour\x0cfive\x1csix', 'one\x85two\u2028three\x0bfour\x0cfive\x1csix'),
    ('back\\nslash \\u0041', 'back\\nslash \\u0041'),
    ("['a', 'b']", "['a', 'b']"),
    ("separated \x85", "separated \x85"),
    ("\x1d\u00a0words\u3000\x1c", "\x1d\u00a0words\u3000\x1c"),
    ('"tab\there"', '"tab\there"'),
    ('{"a": 1}', '{"a": 1}'),
    ("0", "0"),
    ("null", "null"),
    ('["a", "b"]', '["a", "b"]'),
    ('"a", "b"', '"a", "b"'),
    ('"a" ', '"a" '),
    ('""', ""),
]


def run_file(env, n, forms, second, settled=None):
    import click.testing

    dir = env.tmpdir()
    settled = settled or [None] * n
    lines = [LINES[forms[env.pick("line%d" % i, len(forms))]] if settled[i] is None else LINES[settled[i]] for i in range(n)]
    last = env.pick("line end", 2) == 1
    text = "\n".join(l for l, _ in lines) + ("\n" if last else "")
    want = [d for _, d in lines if d is not None]
    path = os.path.join(dir, "docs.txt")
    db = os.path.join(dir, "corpus.db")
    if second:
        c = corpus(env, db)
        c.replace_docs(["before"] * second)
        c.close()
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)
    r = click.testing.CliRunner().invoke(hr.cli.cli, ["plaintext-corpus", "create", path, db])
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        raise r.exception
    env.check(r.exit_code == 0, "creating the corpus succeeds")
    check_content(env, corpus(env, db), want)
    env.reach("created")


ALL = list(range(len(LINES)))
SCENARIOS = {
    "replace": {
        "run": run_replace,
        "quick": [dict(n=n, m=m, fault=f) for n, m, f in (
            (0, 0, "no"), (2, 3, "no"), (2, 0, "no"), (0, 2, "texts"), (2, 2, "texts"), (2, 2, "statement"), (0, 1, "statement"), (1, 0, "statement"))],
        "thorough": [dict(n=n, m=m, fault=f) for n in range(4) for m in range(5) for f in ("no", "texts", "statement")],
        "reach": ["failed", "replaced"],
    },
    "read": {
        "run": run_read,
        "quick": [dict(n=3, L=2), dict(n=2, L=3), dict(n=0, L=1)],
        "thorough": [dict(n=4, L=4), dict(n=3, L=4)],
        "reach": ["read"],
    },
    "long": {
        "run": run_long,
        "quick": [dict(n=7, m=40)],
        "thorough": [dict(n=40, m=7), dict(n=2, m=300)],
        "reach": ["read"],
    },
    "long file": {
        "run": run_long_file,
        "quick": [dict(n=50)],
        "thorough": [dict(n=50), dict(n=2500)],
        "reach": ["created"],
    },
    "file": {
        "run": run_file,
        "quick": [
            dict(n=1, forms=ALL, second=0),
            dict(n=2, forms=ALL, second=1),
            dict(n=3, forms=[0, 2, 4, 9], second=0),
            dict(n=0, forms=[0], second=2),
        ],
        "thorough": [dict(n=2, forms=ALL, second=2), dict(n=3, forms=ALL, second=0), dict(n=4, forms=[0, 2, 3, 4, 6, 9], second=1)],
        "reach": ["created"],
    },
}
