"""C23: unrelated databases are recognised and never taken over."""
import os

from engine import hr
from . import common as K
from . import oldindex as O

BOUNDS = {
    "quick": "databases with any of 7 kinds of content, any version from -2 to 13 (and the extreme ones), application id absent, foreign, that of an index, or close to it (next, negated, every bit set); "
    "index files of every version, other databases, text files, empty files, directories and missing files, under ordinary and unusual file names",
    "thorough": "as quick",
}
VERSIONS = [2**31 - 1, -(2**31), 100, 0]

CONTENT = {
    "table": ["create table one(x)", "insert into one values(1)"],
    "empty table": ["create table one(x integer primary key, y text)"],
    "rows": ["create table one(a, b)", "insert into one values(1, 2)", "insert into one values('x', null)", "create index i on one(a)"],
    "view": ["create view one as select 1 as x"],
    "namesake": [
        "create table cluster(cluster_id integer primary key, label)",
        "insert into cluster values(1, 'mine')",
        "create table settings(key primary key, value)",
        "insert into settings values('position_window_size', 'mine')",
        "create table field_summary(field, n)",
        "create table feature_cluster(feature_id, cluster_id)",
    ],
    "trigger": ["create table one(x)", "create trigger mark_cluster_changed after insert on one begin delete from one; end"],
    "nothing": [],
}


def make(env, path, content, version, app):
    db = hr.db_utilities.connect_sqlite(path)
    for s in CONTENT[content]:
        db.execute(s)
    db.execute("pragma user_version = %d" % version)
    db.execute("pragma application_id = %d" % app)
    db.close()


APPS = {"none": 0, "other": 1196444487, "index": None, "all bits": -1, "next": 715973854, "negated": -715973853}


def app_id(name):
    return hr.schema.MAGIC_APPLICATION_ID if name == "index" else APPS[name]


def dump(path):
    db = hr.db_utilities.connect_sqlite(path)
    out = [
        list(db.execute("pragma user_version"))[0][0],
        list(db.execute("pragma application_id"))[0][0],
        list(db.execute("pragma journal_mode"))[0][0],
        sorted((r[0], r[1]) for r in db.execute("select type, name from sqlite_master")),
    ]
    for t in sorted(r[0] for r in db.execute("select name from sqlite_master where type in ('table', 'view')")):
        out.append([t, [tuple(r) for r in db.execute("select * from %s" % t)]])
    db.close()
    return out


def run_open(env, contents, apps, versions):
    content = contents[env.pick("content", len(contents))]
    app = apps[env.pick("application", len(apps))]
    if versions == "all":
        version = env.pick("version", 16) - 2
    else:
        version = VERSIONS[env.pick("version", len(VERSIONS))]
    current = hr.schema.CURRENT_SCHEMA_VERSION
    # what may be an index: the right application and a version known
    env.assume(not (app == "index" and (version == current or version in hr.schema.migrations)))
    # an empty file becomes an index
    env.assume(not (content == "nothing" and version == 0))
    path = os.path.join(env.tmpdir(), "unrelated.db")
    make(env, path, content, version, app_id(app))
    before = dump(path)
    err = None
    try:
        K.new_index(env, path=path)
    except hr.schema.MigrationError as e:
        err = e
    env.check(err is not None, "the database is refused with the migration error")
    env.check(dump(path) == before, "the database is left as it was")
    other = hr.db_utilities.connect_sqlite(path)
    other.execute("begin immediate")
    other.execute("rollback")
    want = app == "index"
    env.check(hr.index.Index.is_index_db(path) == want, "the file check goes by the application")
    env.reach("refused")


NAMES = [
    "plain.db",
    "with space.db",
    "100%25.db",
    "100%.db",
    "what?.db",
    "a?mode=rwc",
    "b#fragment.db",
    "\u00fcn\u00efcode.db",
    "amp&ersand=1",
    "file:x.db",
    "semi;colon'quote\".db",
    "dir?/inner.db",
]
KINDS = ["index", "old index", "database", "text", "short text", "empty", "missing", "directory", "wrong version", "next", "all bits", "negated"]


def listing(env, dir):
    """files and their contents, but for SQLite's own side files"""
    out = []
    for base, dirs, files in os.walk(dir):
        for f in files:
            p = os.path.join(base, f)
            if p.endswith("-wal") or p.endswith("-shm"):
                continue
            with open(p, "rb") as h:
                out.append((p, h.read()))
        out.extend(os.path.join(base, d) for d in dirs)
    return sorted(out, key=str)


def run_check(env, names, kinds, rel):
    name = NAMES[names[env.pick("name", len(names))]]
    kind = KINDS[kinds[env.pick("kind", len(kinds))]]
    dir = env.tmpdir()
    path = os.path.join(dir, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    # files that a misread name would find
    if "?" in name or "#" in name or "%25" in name:
        for cut in (name.split("?")[0], name.split("#")[0], name.replace("%25", "%")):
            if cut and cut != name and not os.path.exists(os.path.join(dir, cut)) and not name.startswith(cut + "/") and "/" not in name:
                if kind == "index":
                    make(env, os.path.join(dir, cut), "table", 0, 0)
                else:
                    K.new_index(env, path=os.path.join(dir, cut)).db.close()
    if kind == "index":
        K.new_index(env, path=path).db.close()
    elif kind == "old index":
        os.rmdir(path) if os.path.isdir(path) else None
        old, *_ = O.build(env, 4 + env.pick("old version", 6), 1, 1, [1])
        db = hr.db_utilities.connect_sqlite(path)
        # (a copy of the old one cannot be made as a file symbolically)
        db.execute("create table cluster(cluster_id integer primary key, feature_count integer default 0)")
        db.execute("pragma user_version = 4")
        db.execute("pragma application_id = %d" % hr.schema.MAGIC_APPLICATION_ID)
        db.close()
        env.check(hr.index.Index.is_index_db(old) is True, "true for an index of an earlier version")
    elif kind == "database":
        make(env, path, "table", 0, 0)
    elif kind == "wrong version":
        make(env, path, "namesake", hr.schema.CURRENT_SCHEMA_VERSION, APPS["other"])
    elif kind in APPS:
        make(env, path, "namesake", hr.schema.CURRENT_SCHEMA_VERSION, APPS[kind])
    elif kind in ("text", "short text"):
        with open(path, "w", encoding="utf-8") as f:
            f.write("not a database\n" * (100 if kind == "text" else 1))
    elif kind == "empty":
        open(path, "w").close()
    elif kind == "directory":
        os.makedirs(path)
    before = listing(env, dir)
    cwd = os.getcwd()
    arg = path
    if rel:
        os.chdir(dir)
        arg = name
    try:
        got = hr.index.Index.is_index_db(arg)
    finally:
        os.chdir(cwd)
    env.check(got is (kind in ("index", "old index")), "true exactly for index databases")
    env.check(listing(env, dir) == before, "nothing is created or changed")
    if kind == "index":
        idx = K.new_index(env, path=path)
        env.check(list(idx.cluster_ids) == [], "the index still opens")
    env.reach(kind)


SCENARIOS = {
    "open": {
        "run": run_open,
        "quick": [
            dict(contents=sorted(CONTENT), apps=["none", "other", "index"], versions="all"),
            dict(contents=["namesake", "view"], apps=["all bits", "next", "negated"], versions="all"),
            dict(contents=["table", "view", "namesake"], apps=["none", "other", "index"], versions="extreme"),
        ],
        "reach": ["refused"],
    },
    "check": {
        "run": run_check,
        "quick": [dict(names=list(range(len(NAMES))), kinds=list(range(9)), rel=r) for r in (False, True)]
        + [dict(names=[0, 3], kinds=[0, 9, 10, 11], rel=False)],
        "reach": KINDS,
    },
}
