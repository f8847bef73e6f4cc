"""Index databases as earlier schema versions wrote them (C22, C23).  Version 4
is as in tests/index/alice_index.db; later ones add what the migrations to them
add."""
import os

from engine import hr
from . import common as K

FIDS = (1, 2, 4)
CIDS = (0, 3)

TABLES = """
create table doc_key (doc_id integer primary key, doc_key unique);
create table inverted_index (
    feature_id integer primary key, field text not null, value not null, docs_count integer not null,
    doc_ids roaring_bitmap not null, unique (field, value));
create table field_summary (field text primary key, distinct_values integer, min_value, max_value);
create index docs_counts on inverted_index(docs_count);
create table cluster (cluster_id integer primary key, feature_count integer default 0);
create table feature_cluster (
    feature_id integer primary key references inverted_index(feature_id) on delete cascade,
    cluster_id integer references cluster(cluster_id) on delete cascade,
    docs_count integer);
create index cluster_features on feature_cluster(cluster_id, docs_count)
"""
V5 = """
alter table cluster add column docs_count integer default 0;
alter table cluster add column weight integer default 0;
alter table cluster add column doc_ids roaring_bitmap
"""
V8 = """
alter table cluster add column pinned bool default 0;
alter table feature_cluster add column pinned bool default 0
"""
POSITIONS = """
create table position_doc_map (
    field text not null, first_doc_id integer not null, last_doc_id integer not null, docs_count integer not null,
    doc_ids roaring_bitmap not null, doc_boundaries roaring_bitmap not null, primary key (field, first_doc_id));
create table position_index (
    feature_id references inverted_index on delete cascade, first_doc_id integer, position_count integer,
    positions roaring_bitmap, primary key (feature_id, first_doc_id))
"""
CHANGED = "create table changed_cluster (cluster_id integer primary key references cluster on delete cascade)"
SKIPGRAM = "create table skipgram_count (feature_id_a integer, feature_id_b integer, distance integer, docs_count integer)"
SETTINGS = "create table settings (key primary key, value)"
TRIGGERS4 = [
    """create trigger ensure_cluster before insert on feature_cluster
    begin
        insert or ignore into cluster(cluster_id) values (new.cluster_id);
        update cluster set feature_count = feature_count + 1 where cluster_id = new.cluster_id;
    end""",
    """create trigger delete_feature_cluster after delete on feature_cluster
    begin
        update cluster set feature_count = feature_count - 1 where cluster_id = old.cluster_id;
        delete from cluster where cluster_id = old.cluster_id and feature_count = 0;
    end""",
    """create trigger ensure_cluster_update before update on feature_cluster
    when old.cluster_id != new.cluster_id
    begin
        insert or ignore into cluster(cluster_id) values (new.cluster_id);
    end""",
    """create trigger update_cluster_feature_counts after update on feature_cluster
    when old.cluster_id != new.cluster_id
    begin
        update cluster set feature_count = feature_count + 1 where cluster_id = new.cluster_id;
        update cluster set feature_count = feature_count - 1 where cluster_id = old.cluster_id;
        delete from cluster where cluster_id = old.cluster_id and feature_count = 0;
    end""",
]
TRIGGERS5 = TRIGGERS4 + [
    """create trigger mark_cluster_changed after insert on feature_cluster
    begin
        insert or ignore into changed_cluster(cluster_id) values (new.cluster_id);
    end"""
]


def field(i):
    return K.FIELDS[i % len(K.FIELDS)]


def build(env, version, F, D, assign, values=None, pending=False):
    """writes an index of that version; returns its path and content"""
    path = os.path.join(env.tmpdir(), "old.db")
    db = hr.db_utilities.connect_sqlite(path)
    run = lambda script: [db.execute(s) for s in script.split(";") if s.strip()]
    db.execute("pragma foreign_keys=ON")
    run(TABLES)
    if version >= 5:
        run(V5)
        run(CHANGED)
    if version >= 6:
        run(SKIPGRAM)
    if version >= 7:
        run(SETTINGS)
    if version >= 8:
        run(V8)
    if version >= 9:
        run(POSITIONS)
    large = F > len(FIDS)
    fids = tuple(f + f // 3 for f in range(1, F + 1)) if large else FIDS[:F]
    cids = tuple(2 * c for c in range(max(assign) + 1)) if large else CIDS
    values = values or [env.vconst(i) for i in range(F)]
    if large:
        # two documents may or may not have two of the features
        bits = {f: hr.BitMap([(3 * i + j) % (D - 2) for j in range(1 + (7 * i) % 8)]) for i, f in enumerate(fids)}
        for f in (fids[0], fids[3]):
            bits[f] = bits[f] | env.bits("docs%d" % f, 2, base=D - 2)
    else:
        bits = {f: env.bits("docs%d" % f, D) for f in fids}
    for d in range(D):
        db.execute("insert into doc_key(doc_id, doc_key) values(?, ?)", (d, "k%d" % d))
    for i, f in enumerate(fids):
        db.execute(
            "insert into inverted_index(feature_id, field, value, docs_count, doc_ids) values(?, ?, ?, ?, ?)",
            (f, field(i), values[i], K.card(env, bits[f]), bits[f]),
        )
    for name in sorted(set(field(i) for i in range(F))):
        vs = [values[i] for i in range(F) if field(i) == name]
        db.execute(
            "insert into field_summary(field, distinct_values, min_value, max_value) values(?, ?, ?, ?)", (name, len(vs), vs[0], vs[-1])
        )
    model = {f: cids[c - 1] for f, c in zip(fids, assign) if c}
    pins = {f: env.bool("pin%d" % f) if version >= 8 and (not large or f in fids[1:3]) else False for f in model}
    cpins = {c: env.bool("cpin%d" % c) if version >= 8 and (not large or c == 2) else False for c in sorted(set(model.values()))}
    for c in cpins:
        fs = [f for f in model if model[f] == c]
        db.execute("insert into cluster(cluster_id, feature_count) values(?, ?)", (c, len(fs)))
        if version >= 5 and not pending:
            w = 0
            for f in fs:
                w = w + K.card(env, bits[f])
            u = K.union(env, [bits[f] for f in fs])
            db.execute("update cluster set docs_count = ?, weight = ?, doc_ids = ? where cluster_id = ?", (K.card(env, u), w, u, c))
        if version >= 5 and pending:
            db.execute("insert into changed_cluster values(?)", (c,))
        if version >= 8:
            db.execute("update cluster set pinned = ? where cluster_id = ?", (env.ite(cpins[c], 1, 0), c))
    for f in model:
        db.execute("insert into feature_cluster(feature_id, cluster_id, docs_count) values(?, ?, ?)", (f, model[f], K.card(env, bits[f])))
        if version >= 8:
            db.execute("update feature_cluster set pinned = ? where feature_id = ?", (env.ite(pins[f], 1, 0), f))
    positions = {}
    if version >= 9:
        # one token of the first feature in the first document
        positions["text"] = 1
        db.execute("insert into position_doc_map values('text', 0, 0, 1, ?, ?)", (hr.BitMap([0]), hr.BitMap([0, 1])))
        db.execute("insert into position_index values(?, 0, 1, ?)", (fids[0], hr.BitMap([0])))
    for t in TRIGGERS4 if version < 5 else TRIGGERS5 if version < 8 else []:
        db.execute(t)
    db.execute("pragma user_version = %d" % version)
    db.execute("pragma application_id = %d" % hr.schema.MAGIC_APPLICATION_ID)
    db.close()
    return path, fids, values, bits, model, pins, cpins, positions


TWO = ("position_doc_map", "position_index")


def dump(path):
    """everything a database holds"""
    db = hr.db_utilities.connect_sqlite(path)
    out = [
        list(db.execute("pragma user_version"))[0][0],
        list(db.execute("pragma application_id"))[0][0],
        list(db.execute("pragma journal_mode"))[0][0],
    ]
    names = sorted(r[0] for r in db.execute("select name from sqlite_master"))
    tables = sorted(r[0] for r in db.execute("select name from sqlite_master where type = 'table'"))
    out.append(names)
    for t in tables:
        out.append([t, list(db.execute("select * from %s order by %s" % (t, "1, 2" if t in TWO else "1")))])
    db.close()
    return out
