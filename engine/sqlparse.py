"""Parser for the SQLite dialect (the statements SQLite applications use).

Produces tuples: ("kind", ...).  Anything it does not know raises
core.Unsupported, real syntax errors raise SqlSyntax.
"""
import re

from .core import Unsupported


class SqlSyntax(Exception):
    pass


TOKEN = re.compile(
    r"""
    (?P<ws>\s+|--[^\n]*|/\*.*?(?:\*/|$))
  | (?P<blob>[xX]'[0-9a-fA-F]*')
  | (?P<str>'(?:[^']|'')*')
  | (?P<qid>"(?:[^"]|"")*"|`(?:[^`]|``)*`|\[[^\]]*\])
  | (?P<num>0[xX][0-9a-fA-F]+|(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][+-]?\d+)?)
  | (?P<param>\?\d*|[:@$][A-Za-z_][A-Za-z0-9_]*)
  | (?P<id>[A-Za-z_\x80-\U0010ffff][A-Za-z0-9_$\x80-\U0010ffff]*)
  | (?P<op>\|\||->>|->|<<|>>|<=|>=|==|!=|<>|[-+*/%&|~<>=(),.;])
    """,
    re.X | re.S,
)


class Tok:
    __slots__ = ("k", "v", "u", "pos")

    def __init__(self, k, v, pos):
        self.k = k
        self.v = v
        self.u = v.upper() if k == "id" else None
        self.pos = pos

    def __repr__(self):
        return "%s:%s" % (self.k, self.v)


def lex(sql):
    out = []
    i = 0
    n = len(sql)
    while i < n:
        m = TOKEN.match(sql, i)
        if not m:
            raise SqlSyntax('unrecognized token: "%s"' % sql[i])
        k = m.lastgroup
        if k != "ws":
            v = m.group()
            if k == "str":
                v = v[1:-1].replace("''", "'")
            elif k == "qid":
                q = v[0]
                v = v[1:-1]
                if q in "\"`":
                    v = v.replace(q + q, q)
            out.append(Tok(k, v, i))
        i = m.end()
    return out


RESERVED = set(
    """SELECT FROM WHERE GROUP ORDER BY HAVING LIMIT OFFSET UNION INTERSECT EXCEPT ON USING JOIN LEFT INNER
    OUTER CROSS NATURAL FULL RIGHT SET VALUES INTO AND OR NOT IS IN LIKE GLOB BETWEEN CASE WHEN THEN ELSE END
    NULL AS EXISTS INSERT UPDATE DELETE CREATE TABLE INDEX DROP UNIQUE CHECK PRIMARY FOREIGN REFERENCES
    CONSTRAINT DEFAULT COLLATE DISTINCT ALL RETURNING ISNULL NOTNULL ESCAPE COMMIT ADD ALTER
    TO TRANSACTION WINDOW""".split()
)


class Parser:
    def __init__(self, sql):
        self.sql = sql
        self.toks = lex(sql)
        self.i = 0
        self.nparam = 0
        self.params = {}  # name -> index (1-based)

    # -- helpers -----------------------------------------------------------
    def peek(self, o=0):
        j = self.i + o
        return self.toks[j] if j < len(self.toks) else None

    def at(self, *words):
        for o, w in enumerate(words):
            t = self.peek(o)
            if t is None or t.k != "id" or t.u != w:
                return False
        return True

    def atany(self, *words):
        t = self.peek()
        return t is not None and t.k == "id" and t.u in words

    def kw(self, *words):
        if self.at(*words):
            self.i += len(words)
            return True
        return False

    def op(self, o):
        t = self.peek()
        if t is not None and t.k == "op" and t.v == o:
            self.i += 1
            return True
        return False

    def atop(self, *ops):
        t = self.peek()
        return t is not None and t.k == "op" and t.v in ops

    def err(self):
        t = self.peek()
        if t is None:
            raise SqlSyntax("incomplete input")
        raise SqlSyntax('near "%s": syntax error' % t.v)

    def need(self, *words):
        if not self.kw(*words):
            self.err()

    def needop(self, o):
        if not self.op(o):
            self.err()

    def name(self):
        t = self.peek()
        if t is None:
            self.err()
        if t.k in ("qid", "str") or (t.k == "id" and t.u not in RESERVED):
            self.i += 1
            return t.v
        self.err()

    def qname(self):
        a = self.name()
        if self.op("."):
            return a, self.name()
        return None, a

    # -- entry ---------------------------------------------------------------
    def statements(self):
        out = []
        while True:
            while self.op(";"):
                pass
            if self.peek() is None:
                return out
            start = self.peek().pos
            self.nparam = 0
            self.params = {}
            st = self.statement()
            end = self.peek().pos if self.peek() is not None else len(self.sql)
            if self.peek() is not None and not self.atop(";"):
                self.err()
            out.append((st, self.nparam, dict(self.params), self.sql[start:end]))

    def statement(self):
        if self.kw("EXPLAIN"):
            raise Unsupported("EXPLAIN")
        if self.atany("SELECT", "VALUES"):
            return ("select", self.select())
        if self.at("WITH"):
            ctes = self.with_clause()
            if self.atany("SELECT", "VALUES"):
                return ("select", self.select(ctes))
            if self.atany("INSERT", "REPLACE"):
                return self.insert(ctes)
            if self.at("UPDATE"):
                return self.update(ctes)
            if self.at("DELETE"):
                return self.delete(ctes)
            self.err()
        if self.atany("INSERT", "REPLACE"):
            return self.insert([])
        if self.at("UPDATE"):
            return self.update([])
        if self.at("DELETE"):
            return self.delete([])
        if self.at("CREATE"):
            return self.create()
        if self.kw("DROP"):
            for k in ("TABLE", "INDEX", "TRIGGER", "VIEW"):
                if self.kw(k):
                    ife = self.kw("IF", "EXISTS")
                    return ("drop", k.lower(), ife, self.qname())
            self.err()
        if self.kw("ALTER", "TABLE"):
            t = self.qname()
            if self.kw("RENAME"):
                if self.kw("TO"):
                    return ("alter_rename", t, self.name())
                self.kw("COLUMN")
                a = self.name()
                self.need("TO")
                return ("alter_rename_col", t, a, self.name())
            if self.kw("ADD"):
                self.kw("COLUMN")
                return ("alter_add", t, self.coldef())
            if self.kw("DROP"):
                self.kw("COLUMN")
                return ("alter_drop", t, self.name())
            self.err()
        if self.kw("BEGIN"):
            mode = "deferred"
            for m in ("DEFERRED", "IMMEDIATE", "EXCLUSIVE"):
                if self.kw(m):
                    mode = m.lower()
            self.kw("TRANSACTION")
            return ("begin", mode)
        if self.kw("COMMIT") or self.kw("END"):
            self.kw("TRANSACTION")
            return ("commit",)
        if self.kw("ROLLBACK"):
            self.kw("TRANSACTION")
            if self.kw("TO"):
                self.kw("SAVEPOINT")
                return ("rollback_to", self.name())
            return ("rollback",)
        if self.kw("SAVEPOINT"):
            return ("savepoint", self.name())
        if self.kw("RELEASE"):
            self.kw("SAVEPOINT")
            return ("release", self.name())
        if self.kw("ATTACH"):
            self.kw("DATABASE")
            e = self.expr()
            self.need("AS")
            return ("attach", e, self.expr_or_name())
        if self.kw("DETACH"):
            self.kw("DATABASE")
            return ("detach", self.expr_or_name())
        if self.kw("PRAGMA"):
            s, n = self.qname()
            if self.op("="):
                return ("pragma", s, n.lower(), self.pragma_value())
            if self.op("("):
                v = self.pragma_value()
                self.needop(")")
                return ("pragma", s, n.lower(), v)
            return ("pragma", s, n.lower(), None)
        if self.atany("VACUUM", "ANALYZE", "REINDEX"):
            w = self.peek().u.lower()
            while self.peek() is not None and not self.atop(";"):
                self.i += 1
            return ("noop", w)
        self.err()

    def expr_or_name(self):
        t = self.peek()
        if t is not None and t.k in ("id", "qid") and not (
            self.peek(1) is not None and self.peek(1).k == "op" and self.peek(1).v in ("(", ".")
        ):
            self.i += 1
            return ("lit", t.v)
        return self.expr()

    def pragma_value(self):
        neg = False
        if self.op("-"):
            neg = True
        else:
            self.op("+")
        t = self.peek()
        if t is None:
            self.err()
        self.i += 1
        if t.k == "num":
            v = numval(t.v)
            return -v if neg else v
        if t.k in ("id", "qid", "str"):
            return t.v
        self.err()

    # -- DDL ---------------------------------------------------------------------
    def create(self):
        start = self.peek().pos
        self.need("CREATE")
        temp = self.kw("TEMP") or self.kw("TEMPORARY")
        if self.kw("TABLE"):
            ine = self.kw("IF", "NOT", "EXISTS")
            t = self.qname()
            if self.kw("AS"):
                return ("create_as", temp, ine, t, self.select())
            self.needop("(")
            cols = []
            cons = []
            while True:
                if self.atany("CONSTRAINT", "PRIMARY", "UNIQUE", "CHECK", "FOREIGN"):
                    cons.append(self.tconstraint())
                else:
                    cols.append(self.coldef())
                if self.op(","):
                    continue
                self.needop(")")
                break
            wo = False
            while True:
                if self.kw("WITHOUT", "ROWID"):
                    wo = True
                elif self.kw("STRICT"):
                    pass
                else:
                    break
                self.op(",")
            return ("create_table", temp, ine, t, cols, cons, wo)
        unique = self.kw("UNIQUE")
        if self.kw("INDEX"):
            ine = self.kw("IF", "NOT", "EXISTS")
            n = self.qname()
            self.need("ON")
            t = self.name()
            self.needop("(")
            cols = []
            while True:
                e = self.expr()
                if self.kw("ASC") or self.kw("DESC"):
                    pass
                cols.append(e)
                if self.op(","):
                    continue
                self.needop(")")
                break
            where = self.expr() if self.kw("WHERE") else None
            return ("create_index", unique, ine, n, t, cols, where)
        if self.kw("TRIGGER"):
            ine = self.kw("IF", "NOT", "EXISTS")
            n = self.qname()
            when = "before"
            if self.kw("BEFORE"):
                pass
            elif self.kw("AFTER"):
                when = "after"
            elif self.kw("INSTEAD", "OF"):
                raise Unsupported("instead of trigger")
            of = None
            if self.kw("DELETE"):
                ev = "delete"
            elif self.kw("INSERT"):
                ev = "insert"
            else:
                self.need("UPDATE")
                ev = "update"
                if self.kw("OF"):
                    of = [self.name()]
                    while self.op(","):
                        of.append(self.name())
            self.need("ON")
            t = self.name()
            if self.kw("FOR"):
                self.need("EACH", "ROW")
            cond = self.expr() if self.kw("WHEN") else None
            self.need("BEGIN")
            body = []
            while not self.kw("END"):
                if self.atany("SELECT", "VALUES"):
                    st = ("select", self.select())
                elif self.atany("INSERT", "REPLACE"):
                    st = self.insert([])
                elif self.at("UPDATE"):
                    st = self.update([])
                elif self.at("DELETE"):
                    st = self.delete([])
                elif self.at("WITH"):
                    ctes = self.with_clause()
                    st = ("select", self.select(ctes))
                else:
                    self.err()
                self.needop(";")
                body.append(st)
            return ("create_trigger", temp, ine, n, when, ev, of, t, cond, body)
        if self.kw("VIEW"):
            ine = self.kw("IF", "NOT", "EXISTS")
            n = self.qname()
            cols = None
            if self.op("("):
                cols = [self.name()]
                while self.op(","):
                    cols.append(self.name())
                self.needop(")")
            self.need("AS")
            return ("create_view", temp, ine, n, cols, self.select())
        if self.kw("VIRTUAL"):
            raise Unsupported("virtual table")
        self.err()

    def typename(self):
        words = []
        while True:
            t = self.peek()
            if t is None:
                break
            if t.k in ("qid", "str") or (
                t.k == "id"
                and t.u not in RESERVED
                and t.u not in ("GENERATED", "AUTOINCREMENT", "ASC", "DESC")
            ):
                words.append(t.v)
                self.i += 1
            else:
                break
        if words and self.op("("):
            while not self.op(")"):
                if self.peek() is None:
                    self.err()
                self.i += 1
        return " ".join(words)

    def conflict(self):
        if self.kw("ON", "CONFLICT"):
            t = self.peek()
            self.i += 1
            return t.u.lower()
        return None

    def coldef(self):
        n = self.name()
        d = {"name": n, "type": self.typename(), "cons": []}
        while True:
            if self.kw("CONSTRAINT"):
                self.name()
                continue
            if self.kw("PRIMARY", "KEY"):
                self.kw("ASC") or self.kw("DESC")
                c = self.conflict()
                d["pk"] = c or "abort"
                if self.kw("AUTOINCREMENT"):
                    d["auto"] = True
            elif self.kw("NOT", "NULL"):
                d["notnull"] = self.conflict() or "abort"
            elif self.kw("NULL"):
                pass
            elif self.kw("UNIQUE"):
                d["unique"] = self.conflict() or "abort"
            elif self.kw("CHECK"):
                self.needop("(")
                d["cons"].append(self.expr())
                self.needop(")")
            elif self.kw("DEFAULT"):
                if self.op("("):
                    d["default"] = self.expr()
                    self.needop(")")
                elif self.op("-"):
                    d["default"] = ("un", "-", self.primary())
                else:
                    self.op("+")
                    d["default"] = self.expr_or_name() if self.peek().k in ("id", "qid") and not self.atany("NULL", "TRUE", "FALSE", "CURRENT_TIMESTAMP", "CURRENT_DATE", "CURRENT_TIME") else self.primary()
            elif self.kw("COLLATE"):
                d["collate"] = self.name().upper()
            elif self.atany("REFERENCES"):
                d["fk"] = self.fkclause()
            elif self.kw("GENERATED", "ALWAYS") or self.at("AS"):
                raise Unsupported("generated column")
            else:
                return d

    def fkclause(self):
        self.need("REFERENCES")
        t = self.name()
        cols = None
        if self.op("("):
            cols = [self.name()]
            while self.op(","):
                cols.append(self.name())
            self.needop(")")
        acts = {"delete": "no action", "update": "no action"}
        deferred = False
        while True:
            if self.kw("ON"):
                if self.kw("DELETE"):
                    k = "delete"
                else:
                    self.need("UPDATE")
                    k = "update"
                if self.kw("SET", "NULL"):
                    acts[k] = "set null"
                elif self.kw("SET", "DEFAULT"):
                    acts[k] = "set default"
                elif self.kw("CASCADE"):
                    acts[k] = "cascade"
                elif self.kw("RESTRICT"):
                    acts[k] = "restrict"
                else:
                    self.need("NO", "ACTION")
            elif self.kw("MATCH"):
                self.name()
            elif self.at("NOT", "DEFERRABLE"):
                self.i += 2
                if self.kw("INITIALLY"):
                    self.i += 1
            elif self.kw("DEFERRABLE"):
                if self.kw("INITIALLY", "DEFERRED"):
                    deferred = True
                else:
                    self.kw("INITIALLY", "IMMEDIATE")
            else:
                return (t, cols, acts, deferred)

    def collist(self):
        self.needop("(")
        cols = []
        while True:
            cols.append(self.name())
            if self.kw("COLLATE"):
                self.name()
            self.kw("ASC") or self.kw("DESC")
            self.kw("AUTOINCREMENT")
            if self.op(","):
                continue
            self.needop(")")
            return cols

    def tconstraint(self):
        if self.kw("CONSTRAINT"):
            self.name()
        if self.kw("PRIMARY", "KEY"):
            c = self.collist()
            return ("pk", c, self.conflict() or "abort")
        if self.kw("UNIQUE"):
            c = self.collist()
            return ("unique", c, self.conflict() or "abort")
        if self.kw("CHECK"):
            self.needop("(")
            e = self.expr()
            self.needop(")")
            return ("check", e)
        self.need("FOREIGN", "KEY")
        c = self.collist()
        return ("fk", c, self.fkclause())

    # -- DML -----------------------------------------------------------------------
    def with_clause(self):
        self.need("WITH")
        rec = self.kw("RECURSIVE")
        out = []
        while True:
            n = self.name()
            cols = None
            if self.op("("):
                cols = [self.name()]
                while self.op(","):
                    cols.append(self.name())
                self.needop(")")
            self.need("AS")
            if self.kw("NOT", "MATERIALIZED") or self.kw("MATERIALIZED"):
                pass
            self.needop("(")
            inner = self.with_clause() if self.at("WITH") else []
            s = self.select(inner)
            self.needop(")")
            out.append((n, cols, s, rec))
            if not self.op(","):
                return out

    def insert(self, ctes):
        orx = "abort"
        if self.kw("REPLACE"):
            orx = "replace"
        else:
            self.need("INSERT")
            if self.kw("OR"):
                orx = self.peek().u.lower()
                self.i += 1
        self.need("INTO")
        t = self.qname()
        alias = self.name() if self.kw("AS") else None
        cols = None
        if self.atop("("):
            cols = self.collist()
        if self.kw("DEFAULT", "VALUES"):
            src = None
        else:
            inner = self.with_clause() if self.at("WITH") else []
            src = self.select(inner, insert=True)
        ups = []
        while self.kw("ON", "CONFLICT"):
            target = None
            if self.atop("("):
                self.needop("(")
                target = []
                while True:
                    target.append(self.expr())
                    if self.op(","):
                        continue
                    self.needop(")")
                    break
                if self.kw("WHERE"):
                    self.expr()
            self.need("DO")
            if self.kw("NOTHING"):
                ups.append((target, None, None))
            else:
                self.need("UPDATE", "SET")
                sets = self.setlist()
                w = self.expr() if self.kw("WHERE") else None
                ups.append((target, sets, w))
        ret = self.returning()
        return ("insert", ctes, orx, t, alias, cols, src, ups, ret)

    def returning(self):
        if self.kw("RETURNING"):
            return self.resultcols()
        return None

    def setlist(self):
        sets = []
        while True:
            if self.atop("("):
                cols = self.collist()
                self.needop("=")
                sets.append((cols, self.expr()))
            else:
                c = self.name()
                self.needop("=")
                sets.append(([c], self.expr()))
            if not self.op(","):
                return sets

    def update(self, ctes):
        self.need("UPDATE")
        orx = "abort"
        if self.kw("OR"):
            orx = self.peek().u.lower()
            self.i += 1
        t = self.qname()
        alias = None
        if self.kw("AS"):
            alias = self.name()
        self.index_hint()
        self.need("SET")
        sets = self.setlist()
        frm = self.fromclause() if self.kw("FROM") else None
        w = self.expr() if self.kw("WHERE") else None
        ret = self.returning()
        order, limit = self.orderlimit()
        if order or limit:
            raise Unsupported("update with limit")
        return ("update", ctes, orx, t, alias, sets, frm, w, ret)

    def delete(self, ctes):
        self.need("DELETE", "FROM")
        t = self.qname()
        alias = self.name() if self.kw("AS") else None
        self.index_hint()
        w = self.expr() if self.kw("WHERE") else None
        ret = self.returning()
        order, limit = self.orderlimit()
        if order or limit:
            raise Unsupported("delete with limit")
        return ("delete", ctes, t, alias, w, ret)

    # -- SELECT ----------------------------------------------------------------------
    def select(self, ctes=(), insert=False):
        core = self.selcore()
        parts = [(None, core)]
        while True:
            if self.kw("UNION", "ALL"):
                o = "union all"
            elif self.kw("UNION"):
                o = "union"
            elif self.kw("INTERSECT"):
                o = "intersect"
            elif self.kw("EXCEPT"):
                o = "except"
            else:
                break
            parts.append((o, self.selcore()))
        order, limit = self.orderlimit()
        return ("sel", list(ctes), parts, order, limit)

    def orderlimit(self):
        order = []
        limit = None
        if self.kw("ORDER", "BY"):
            while True:
                e = self.expr()
                desc = False
                if self.kw("DESC"):
                    desc = True
                else:
                    self.kw("ASC")
                nulls = None
                if self.kw("NULLS", "FIRST"):
                    nulls = "first"
                elif self.kw("NULLS", "LAST"):
                    nulls = "last"
                order.append((e, desc, nulls))
                if not self.op(","):
                    break
        if self.kw("LIMIT"):
            a = self.expr()
            b = None
            if self.kw("OFFSET"):
                b = self.expr()
            elif self.op(","):
                b = a
                a = self.expr()
            limit = (a, b)
        return order, limit

    def selcore(self):
        if self.kw("VALUES"):
            rows = []
            while True:
                self.needop("(")
                row = [self.expr()]
                while self.op(","):
                    row.append(self.expr())
                self.needop(")")
                rows.append(row)
                if not self.op(","):
                    return ("values", rows)
        self.need("SELECT")
        distinct = self.kw("DISTINCT")
        if not distinct:
            self.kw("ALL")
        cols = self.resultcols()
        frm = self.fromclause() if self.kw("FROM") else None
        where = self.expr() if self.kw("WHERE") else None
        group = []
        having = None
        if self.kw("GROUP", "BY"):
            group.append(self.expr())
            while self.op(","):
                group.append(self.expr())
        if self.kw("HAVING"):
            having = self.expr()
        if self.at("WINDOW"):
            raise Unsupported("window clause")
        return ("core", distinct, cols, frm, where, group, having)

    def resultcols(self):
        cols = []
        while True:
            if self.op("*"):
                cols.append(("star", None))
            elif (
                self.peek() is not None
                and self.peek().k in ("id", "qid")
                and self.peek(1) is not None
                and self.peek(1).v == "."
                and self.peek(2) is not None
                and self.peek(2).v == "*"
                and self.peek(2).k == "op"
            ):
                t = self.name()
                self.i += 2
                cols.append(("star", t))
            else:
                s = self.peek().pos if self.peek() else 0
                e = self.expr()
                end = self.peek().pos if self.peek() else len(self.sql)
                text = self.sql[s:end].strip()
                alias = None
                if self.kw("AS"):
                    alias = self.name()
                elif self.peek() is not None and (
                    self.peek().k in ("qid", "str")
                    or (self.peek().k == "id" and self.peek().u not in RESERVED)
                ):
                    alias = self.name()
                cols.append(("col", e, alias, text))
            if not self.op(","):
                return cols

    def index_hint(self):
        if self.kw("INDEXED", "BY"):
            self.name()
        elif self.kw("NOT", "INDEXED"):
            pass

    def tableref(self):
        if self.op("("):
            if self.atany("SELECT", "VALUES", "WITH"):
                inner = self.with_clause() if self.at("WITH") else []
                s = self.select(inner)
                self.needop(")")
                return ("subq", s, self.talias())
            f = self.fromclause()
            self.needop(")")
            return ("nested", f, self.talias())
        q = self.qname()
        if self.atop("("):
            self.needop("(")
            args = []
            if not self.atop(")"):
                args.append(self.expr())
                while self.op(","):
                    args.append(self.expr())
            self.needop(")")
            return ("tfunc", q, args, self.talias())
        a = self.talias()
        self.index_hint()
        return ("table", q, a)

    def talias(self):
        if self.kw("AS"):
            return self.name()
        t = self.peek()
        if t is not None and (
            t.k == "qid" or (t.k == "id" and t.u not in RESERVED and t.u not in ("INDEXED",))
        ):
            return self.name()
        return None

    def fromclause(self):
        """list of (join type, ref, on, using)"""
        out = [("first", self.tableref(), None, None)]
        while True:
            nat = False
            if self.op(","):
                jt = "inner"
            else:
                save = self.i
                nat = self.kw("NATURAL")
                if self.kw("LEFT"):
                    self.kw("OUTER")
                    jt = "left"
                elif self.kw("INNER") or self.kw("CROSS"):
                    jt = "inner"
                elif self.atany("RIGHT", "FULL"):
                    raise Unsupported("right/full join")
                else:
                    jt = "inner"
                if not self.kw("JOIN"):
                    self.i = save
                    return out
            ref = self.tableref()
            on = using = None
            if self.kw("ON"):
                on = self.expr()
            elif self.kw("USING"):
                using = self.collist()
            if nat:
                using = "natural"
            out.append((jt, ref, on, using))

    # -- expressions --------------------------------------------------------------------
    def expr(self):
        return self.e_or()

    def e_or(self):
        a = self.e_and()
        while self.kw("OR"):
            a = ("or", a, self.e_and())
        return a

    def e_and(self):
        a = self.e_not()
        while self.kw("AND"):
            a = ("and", a, self.e_not())
        return a

    def e_not(self):
        if self.at("NOT") and not (self.peek(1) is not None and self.peek(1).u == "EXISTS"):
            self.i += 1
            return ("not", self.e_not())
        return self.e_eq()

    def e_eq(self):
        a = self.e_cmp()
        while True:
            if self.op("=") or self.op("=="):
                a = ("cmp", "=", a, self.e_cmp())
            elif self.op("!=") or self.op("<>"):
                a = ("cmp", "!=", a, self.e_cmp())
            elif self.kw("IS"):
                neg = self.kw("NOT")
                if self.kw("DISTINCT", "FROM"):
                    neg = not neg
                r = ("is", a, self.e_cmp())
                a = ("not", r) if neg else r
            elif self.kw("ISNULL"):
                a = ("is", a, ("lit", None))
            elif self.kw("NOTNULL") or self.kw("NOT", "NULL"):
                a = ("not", ("is", a, ("lit", None)))
            elif self.atany("IN", "LIKE", "GLOB", "MATCH", "REGEXP", "BETWEEN") or (
                self.at("NOT")
                and self.peek(1) is not None
                and self.peek(1).u in ("IN", "LIKE", "GLOB", "MATCH", "REGEXP", "BETWEEN")
            ):
                neg = self.kw("NOT")
                if self.kw("IN"):
                    r = self.in_rhs(a)
                elif self.kw("BETWEEN"):
                    lo = self.e_cmp()
                    self.need("AND")
                    hi = self.e_cmp()
                    r = ("between", a, lo, hi)
                else:
                    o = self.peek().u.lower()
                    self.i += 1
                    b = self.e_cmp()
                    esc = self.e_cmp() if self.kw("ESCAPE") else None
                    r = ("like", o, a, b, esc)
                a = ("not", r) if neg else r
            else:
                return a

    def in_rhs(self, a):
        if self.op("("):
            if self.atany("SELECT", "VALUES", "WITH"):
                inner = self.with_clause() if self.at("WITH") else []
                s = self.select(inner)
                self.needop(")")
                return ("in_sel", a, s)
            items = []
            if not self.atop(")"):
                items.append(self.expr())
                while self.op(","):
                    items.append(self.expr())
            self.needop(")")
            return ("in_list", a, items)
        q = self.qname()
        return (
            "in_sel",
            a,
            (
                "sel",
                [],
                [(None, ("core", False, [("star", None)], [("first", ("table", q, None), None, None)], None, [], None))],
                [],
                None,
            ),
        )

    def e_cmp(self):
        a = self.e_bit()
        while self.atop("<", "<=", ">", ">="):
            o = self.peek().v
            self.i += 1
            a = ("cmp", o, a, self.e_bit())
        return a

    def e_bit(self):
        a = self.e_add()
        while self.atop("<<", ">>", "&", "|"):
            o = self.peek().v
            self.i += 1
            a = ("bin", o, a, self.e_add())
        return a

    def e_add(self):
        a = self.e_mul()
        while self.atop("+", "-"):
            o = self.peek().v
            self.i += 1
            a = ("bin", o, a, self.e_mul())
        return a

    def e_mul(self):
        a = self.e_cat()
        while self.atop("*", "/", "%"):
            o = self.peek().v
            self.i += 1
            a = ("bin", o, a, self.e_cat())
        return a

    def e_cat(self):
        a = self.e_un()
        while self.atop("||", "->", "->>"):
            o = self.peek().v
            self.i += 1
            a = ("bin", o, a, self.e_un())
        return a

    def e_un(self):
        if self.op("-"):
            return ("un", "-", self.e_un())
        if self.op("+"):
            return self.e_un()
        if self.op("~"):
            return ("un", "~", self.e_un())
        a = self.primary()
        while self.kw("COLLATE"):
            a = ("collate", a, self.name().upper())
        return a

    def primary(self):
        t = self.peek()
        if t is None:
            self.err()
        if t.k == "num":
            self.i += 1
            return ("lit", numval(t.v))
        if t.k == "str":
            self.i += 1
            return ("lit", t.v)
        if t.k == "blob":
            self.i += 1
            return ("lit", bytes.fromhex(t.v[2:-1]))
        if t.k == "param":
            self.i += 1
            return self.param(t.v)
        if self.op("("):
            if self.atany("SELECT", "VALUES", "WITH"):
                inner = self.with_clause() if self.at("WITH") else []
                s = self.select(inner)
                self.needop(")")
                return ("scalar", s)
            items = [self.expr()]
            while self.op(","):
                items.append(self.expr())
            self.needop(")")
            return items[0] if len(items) == 1 else ("row", items)
        if t.k == "id":
            if t.u == "NULL":
                self.i += 1
                return ("lit", None)
            if t.u in ("TRUE", "FALSE") and not (self.peek(1) is not None and self.peek(1).v == "."):
                self.i += 1
                return ("lit", 1 if t.u == "TRUE" else 0)
            if t.u in ("CURRENT_TIMESTAMP", "CURRENT_DATE", "CURRENT_TIME"):
                self.i += 1
                return ("now", t.u)
            if t.u == "EXISTS" or (t.u == "NOT" and self.peek(1).u == "EXISTS"):
                neg = self.kw("NOT")
                self.need("EXISTS")
                self.needop("(")
                inner = self.with_clause() if self.at("WITH") else []
                s = self.select(inner)
                self.needop(")")
                r = ("exists", s)
                return ("not", r) if neg else r
            if t.u == "CASE":
                self.i += 1
                base = None if self.at("WHEN") else self.expr()
                whens = []
                while self.kw("WHEN"):
                    c = self.expr()
                    self.need("THEN")
                    whens.append((c, self.expr()))
                els = self.expr() if self.kw("ELSE") else None
                self.need("END")
                return ("case", base, whens, els)
            if t.u == "CAST":
                self.i += 1
                self.needop("(")
                e = self.expr()
                self.need("AS")
                ty = self.typename()
                self.needop(")")
                return ("cast", e, ty)
            if t.u == "RAISE":
                self.i += 1
                self.needop("(")
                kind = self.peek().u.lower()
                self.i += 1
                msg = None
                if self.op(","):
                    msg = self.expr()
                self.needop(")")
                return ("raise", kind, msg)
            nxt = self.peek(1)
            if nxt is not None and nxt.k == "op" and nxt.v == "(" and (t.u not in RESERVED):
                self.i += 2
                fn = t.v.lower()
                distinct = self.kw("DISTINCT")
                args = []
                star = False
                order = None
                if self.op("*"):
                    star = True
                elif not self.atop(")"):
                    args.append(self.expr())
                    while self.op(","):
                        args.append(self.expr())
                    if self.at("ORDER"):
                        order, _ = self.orderlimit()
                self.needop(")")
                filt = None
                if self.at("FILTER"):
                    self.i += 1
                    self.needop("(")
                    self.need("WHERE")
                    filt = self.expr()
                    self.needop(")")
                if self.at("OVER"):
                    self.i += 1
                    self.needop("(")
                    part = []
                    if self.kw("PARTITION", "BY"):
                        part.append(self.expr())
                        while self.op(","):
                            part.append(self.expr())
                    worder, _ = self.orderlimit()
                    if not self.atop(")"):
                        raise Unsupported("window frame")
                    self.needop(")")
                    return ("window", fn, args, star, part, worder)
                return ("func", fn, args, distinct, star, filt, order)
        # column reference
        a = self.name()
        if self.op("."):
            b = self.name()
            if self.op("."):
                return ("colref", b, self.name(), a, False)
            return ("colref", a, b, None, False)
        return ("colref", None, a, None, t.k == "qid" and self.sql[t.pos] == '"')

    def param(self, v):
        if v == "?":
            self.nparam += 1
            return ("param", self.nparam - 1)
        if v[0] == "?":
            n = int(v[1:])
            self.nparam = max(self.nparam, n)
            return ("param", n - 1)
        if v not in self.params:
            self.nparam += 1
            self.params[v] = self.nparam
        return ("param", self.params[v] - 1)


def numval(s):
    if s[:2].lower() == "0x":
        return int(s, 16)
    if re.fullmatch(r"\d+", s):
        v = int(s)
        return v if v < 2**63 else float(v)
    return float(s)


_cache = {}


def parse(sql):
    r = _cache.get(sql)
    if r is None:
        try:
            r = Parser(sql).statements()
        except SqlSyntax as e:
            r = e
        if len(_cache) > 5000:
            _cache.clear()
        _cache[sql] = r
    if isinstance(r, SqlSyntax):
        raise r
    return r
