"""A symbolic SQLite: storage, SQL evaluation and the Python `sqlite3` API.

Tables hold rows whose cells may be symbolic.  WHERE clauses over symbolic
cells fork the path (decided by z3), except under count/sum/exists where the
rows are kept with guards.  Semantics follow the SQLite documentation:
transactions and savepoints, snapshot isolation between connections and one
writer, statement-level rollback, PRIMARY KEY/UNIQUE/NOT NULL with conflict
clauses, foreign keys with actions, row triggers, type affinity.
SQLite itself is the trusted component this stands for; sampled paths are
replayed against the real one.
"""
import datetime as _dt
import os
import re
import types
from urllib.parse import unquote

import z3

from . import core
from .core import (
    SymBool,
    SymInt,
    SymReal,
    SymVal,
    Unsupported,
    bterm,
    count_terms,
    decide,
    merge,
    mkbool,
    mkint,
    num,
    sym_div,
    tand,
    tnot,
    tor,
)
from .bitmap import Blob
from .sqlparse import SqlSyntax, parse


# ---------------------------------------------------------------- exceptions
class Warning(Exception):
    pass


class Error(Exception):
    sqlite_errorcode = 1
    sqlite_errorname = "SQLITE_ERROR"


class InterfaceError(Error):
    pass


class DatabaseError(Error):
    pass


class OperationalError(DatabaseError):
    pass


class IntegrityError(DatabaseError):
    pass


class InternalError(DatabaseError):
    pass


class ProgrammingError(DatabaseError):
    pass


class NotSupportedError(DatabaseError):
    pass


class DataError(DatabaseError):
    pass


class _Ignore(Exception):
    """RAISE(IGNORE) / conflict ignored"""


# ---------------------------------------------------------------- values
NUMT = (int, SymInt, float, SymReal, bool, SymBool)


def vclass(v):
    if v is None:
        return 0
    t = type(v)
    if t in NUMT:
        return 1
    if t is SymVal or isinstance(v, str):
        return 2
    return 3


def norm(v):
    """predicate results become integers"""
    t = type(v)
    if t is bool:
        return int(v)
    if t is SymBool:
        return v._int()
    return v


def v_eq(a, b, coll=None):
    """term: equality of two non-null values"""
    ca, cb = vclass(a), vclass(b)
    if ca != cb:
        return False
    if coll == "NOCASE" and ca == 2:
        if type(a) is not SymVal and type(b) is not SymVal:
            return a.lower() == b.lower()
    return bterm(a == b)


def v_lt(a, b, coll=None):
    ca, cb = vclass(a), vclass(b)
    if ca != cb:
        return ca < cb
    if ca == 0:
        return False
    if ca == 3:
        if isinstance(a, Blob) or isinstance(b, Blob):
            raise Unsupported("ordering of bitmaps")
    if ca == 2:
        if type(a) is SymVal or type(b) is SymVal:
            return bterm(a < b) if type(a) is SymVal else bterm(b > a)
        if coll == "NOCASE":
            return a.lower() < b.lower()
        return a.encode("utf-8", "surrogatepass") < b.encode("utf-8", "surrogatepass")
    return bterm(a < b)


def v_same(a, b, coll=None):
    """IS / grouping equality"""
    if a is None or b is None:
        return a is None and b is None
    return v_eq(a, b, coll)


def to_num(v):
    if v is None or type(v) in NUMT:
        return norm(v)
    if type(v) is SymVal:
        return 0
    if isinstance(v, str):
        m = re.match(r"\s*[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?", v)
        if not m:
            return 0
        s = m.group().strip()
        return int(s) if re.fullmatch(r"[+-]?\d+", s) else float(s)
    return 0


def looks_num(s):
    m = re.fullmatch(r"\s*[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?\s*", s)
    if not m:
        return None
    s = s.strip()
    if re.fullmatch(r"[+-]?\d+", s):
        i = int(s)
        return i if -(2**63) <= i < 2**63 else float(s)
    f = float(s)
    return int(f) if f == int(f) and abs(f) < 2**53 else f


def affinity(decl):
    d = (decl or "").upper()
    if "INT" in d:
        return "INTEGER"
    if "CHAR" in d or "CLOB" in d or "TEXT" in d:
        return "TEXT"
    if "BLOB" in d or d == "":
        return "BLOB"
    if "REAL" in d or "FLOA" in d or "DOUB" in d:
        return "REAL"
    return "NUMERIC"


def apply_aff(v, aff):
    if v is None or aff in (None, "BLOB"):
        return norm(v)
    if aff == "TEXT":
        if type(v) in (int, float, bool):
            return totext(v)
        if type(v) in (SymInt, SymBool):
            return totext(norm(v))
        return v
    if isinstance(v, str) and type(v) is not SymVal:
        n = looks_num(v)
        if n is None:
            return v
        return float(n) if aff == "REAL" else n
    if type(v) is float and aff in ("INTEGER", "NUMERIC"):
        if v == v and abs(v) < 2**53 and v == int(v):
            return int(v)
    if type(v) is int and aff == "REAL":
        return float(v)
    return norm(v)


def totext(v):
    if v is None:
        return None
    if type(v) is SymInt:
        v = v.__index__()
    if type(v) is bool:
        v = int(v)
    if type(v) is int:
        return str(v)
    if type(v) is float:
        if v == int(v) and abs(v) < 1e15:
            return "%.1f" % v
        return "%.15g" % v
    if isinstance(v, str):
        return v
    if isinstance(v, Blob) or type(v) is SymReal:
        raise Unsupported("text of a symbolic value")
    return v.decode("utf-8", "replace")


def truth(v):
    """None or term"""
    if v is None:
        return None
    t = type(v)
    if t is bool:
        return v
    if t is SymBool:
        return v.t
    n = to_num(v)
    return bterm(n != 0) if type(n) in (SymInt, SymReal) else bool(n)


# ---------------------------------------------------------------- storage
class Col:
    __slots__ = ("name", "type", "aff", "notnull", "default", "collate", "decl")

    def __init__(self, name, type_, notnull=None, default=None, collate=None):
        self.name = name
        self.type = type_
        self.aff = affinity(type_)
        self.notnull = notnull
        self.default = default
        self.collate = collate


class Table:
    """schema + rows; rows: list of (rowid, tuple)"""

    def __init__(self, name):
        self.name = name
        self.cols = []
        self.idx = {}
        self.rowid_col = None
        self.autoinc = False
        self.uniques = []  # (tuple of col idx, conflict, label)
        self.fks = []  # (col idxs, parent name, parent cols or None, actions)
        self.checks = []
        self.rows = []
        self.sql = ""

    def clone(self):
        t = Table.__new__(Table)
        t.__dict__.update(self.__dict__)
        t.rows = list(self.rows)
        return t

    def schema_clone(self):
        t = self.clone()
        t.cols = list(self.cols)
        t.idx = dict(self.idx)
        t.uniques = list(self.uniques)
        t.fks = list(self.fks)
        return t


class State:
    def __init__(self):
        self.tables = {}
        self.indexes = {}  # name -> (table, cols idx or None, unique, sql)
        self.triggers = {}  # name -> dict
        self.views = {}
        self.user_version = 0
        self.application_id = 0
        self.own = set()
        self.order = []  # creation order of (type, name)

    def copy(self):
        s = State.__new__(State)
        s.tables = dict(self.tables)
        s.indexes = dict(self.indexes)
        s.triggers = dict(self.triggers)
        s.views = dict(self.views)
        s.user_version = self.user_version
        s.application_id = self.application_id
        s.own = set()
        self.own = set()
        s.order = list(self.order)
        return s

    def same(self, o):
        return (
            self.order == o.order
            and self.user_version == o.user_version
            and self.application_id == o.application_id
            and all(o.tables.get(k) is t for k, t in self.tables.items())
            and all(o.triggers.get(k) is t for k, t in self.triggers.items())
        )

    def wtable(self, key):
        t = self.tables[key]
        if key not in self.own:
            t = t.clone()
            self.tables[key] = t
            self.own.add(key)
        return t


class DBFile:
    def __init__(self, path):
        self.path = path
        self.state = State()
        self.version = 0
        self.writer = None
        self.bad = False
        self.readonly = False
        self.wal = False
        self.touched = False


class World:
    """all database files of one path, and the fault hook"""

    def __init__(self):
        self.files = {}
        self.hook = None
        self.mem = 0
        self.connections = []

    def open(self, path, create=True):
        f = self.files.get(path)
        if f is not None and f.touched and not os.path.exists(path):
            f = None
        if f is None:
            disk = not path.startswith(":") and os.path.exists(path)
            if not create and not disk or disk and not os.path.isfile(path):
                raise OperationalError("unable to open database file")
            if not path.startswith(":") and not os.path.isdir(os.path.dirname(os.path.abspath(path))):
                raise OperationalError("unable to open database file")
            f = DBFile(path)
            if disk:
                with open(path, "rb") as h:
                    head = h.read(16)
                if head.startswith(b"SQLite format 3"):
                    raise Unsupported("a database not written by the scenario")
                f.bad = head != b""
            if not path.startswith(":"):
                try:
                    open(path, "ab").close()
                    f.touched = True
                except OSError:
                    pass
            self.files[path] = f
        return f


_world = World()


def world():
    return _world


def reset_world():
    global _world
    _world = World()
    return _world


class Att:
    def __init__(self, file):
        self.file = file
        self.work = None  # state in the current transaction
        self.snap = None
        self.dirty = False
        self.backup = None


# ---------------------------------------------------------------- evaluation
AGG = {"count", "sum", "total", "avg", "min", "max", "group_concat", "string_agg", "json_group_array"}


class Source:
    __slots__ = ("name", "cols", "idx", "row", "rowid", "affs", "decls", "colls", "hidden", "schema")

    def __init__(self, name, cols, affs, decls, colls=None, schema=None):
        self.name = name.lower() if name else None
        self.cols = cols
        self.idx = {}
        for i, c in enumerate(cols):
            self.idx.setdefault(c.lower(), i)
        self.affs = affs
        self.decls = decls
        self.colls = colls or [None] * len(cols)
        self.row = None
        self.rowid = None
        self.hidden = set()
        self.schema = schema


class Scope:
    __slots__ = ("sources", "parent", "aliases", "group", "ctes", "winrows", "wincur")

    def __init__(self, sources, parent, ctes):
        self.sources = sources
        self.parent = parent
        self.aliases = None
        self.group = None
        self.ctes = ctes
        self.winrows = None
        self.wincur = None


ROWIDS = ("rowid", "oid", "_rowid_")
PREFILTER = 8


class Exec:
    """evaluates one statement for a connection"""

    def __init__(self, conn, params):
        self.c = conn
        self.params = params
        # SQLite counts foreign key violations during a statement: the
        # statement fails if the counter is positive at its end
        self.fk_count = 0
        self.multi = True
        self.active_triggers = []
        self.changes = 0
        self.lastrowid = None
        self.now = None

    # -- columns
    def lookup(self, scope, tab, col, schema=None):
        tl = tab.lower() if tab else None
        cl = col.lower()
        s = scope
        while s is not None:
            for src in s.sources:
                if tl is not None and src.name != tl:
                    continue
                if schema is not None and src.schema is not None and src.schema != schema.lower():
                    continue
                i = src.idx.get(cl)
                if i is not None:
                    if tl is None and cl in src.hidden:
                        continue
                    return s, src, i
                if cl in ROWIDS and src.rowid is not None:
                    return s, src, -1
                if cl in ROWIDS and src.row is None and src.name is not None and src.schema:
                    return s, src, -1
            if tl is None and s.aliases and cl in s.aliases:
                return s, s.aliases[cl], None
            s = s.parent
        return None

    def colinfo(self, e, scope):
        """(affinity, collation, decltype) of an expression"""
        k = e[0]
        if k == "colref":
            r = self.lookup(scope, e[1], e[2], e[3])
            if r is None:
                return None, None, None
            _, src, i = r
            if i is None:
                return self.colinfo(src, scope)
            if i == -1:
                return "INTEGER", None, "integer"
            return src.affs[i], src.colls[i], src.decls[i]
        if k == "cast":
            return affinity(e[2]), None, None
        if k == "collate":
            a, _, d = self.colinfo(e[1], scope)
            return a, e[2], None
        if k == "scalar":
            parts = e[1][2]
            if len(parts) == 1 and parts[0][1][0] == "core":
                corep = parts[0][1]
                cols = corep[2]
                if len(cols) == 1 and cols[0][0] == "col" and cols[0][1][0] == "colref":
                    try:
                        sub = self.bind_sources(corep[3], scope, e[1][1])
                    except DatabaseError:
                        return None, None, None
                    a, _, _ = self.colinfo(cols[0][1], sub)
                    return a, None, None
            return None, None, None
        return None, None, None

    def colval(self, e, scope):
        r = self.lookup(scope, e[1], e[2], e[3])
        if r is None:
            if e[4]:
                return e[2]
            n = e[2] if e[1] is None else "%s.%s" % (e[1], e[2])
            raise OperationalError("no such column: %s" % n)
        s, src, i = r
        if i is None:
            return self.ev(src, scope)
        if s.group is not None and s is not scope and False:
            pass
        if src.row is None:
            return None
        if i == -1:
            return src.rowid
        return src.row[i]

    # -- expressions
    def pred(self, e, scope):
        """three-valued: None or term"""
        k = e[0]
        if k == "and":
            a = self.pred(e[1], scope)
            if a is False:
                return False
            b = self.pred(e[2], scope)
            if a is None or b is None:
                o = b if a is None else a
                if o is None or o is True:
                    return None
                if o is False:
                    return False
                return None if decide(o) else False
            return tand(a, b)
        if k == "or":
            a = self.pred(e[1], scope)
            if a is True:
                return True
            b = self.pred(e[2], scope)
            if a is None or b is None:
                o = b if a is None else a
                if o is None or o is False:
                    return None
                if o is True:
                    return True
                return True if decide(o) else None
            return tor(a, b)
        if k == "not":
            a = self.pred(e[1], scope)
            return None if a is None else tnot(a)
        return truth(self.ev(e, scope))

    def holds(self, e, scope):
        """guard term: the predicate is true"""
        p = self.pred(e, scope)
        return False if p is None else p

    def evrow(self, e, scope):
        if e[0] == "row":
            return [self.ev(x, scope) for x in e[1]], [self.colinfo(x, scope) for x in e[1]]
        if e[0] == "scalar":
            rows, names, infos = self.run_select(e[1], scope, limit1=True)
            if len(names) > 1:
                return (list(rows[0]) if rows else [None] * len(names)), infos
            return [rows[0][0] if rows else None], [(infos[0][0], None, None)]
        return [self.ev(e, scope)], [self.colinfo(e, scope)]

    def cmp1(self, op, a, b, ia, ib):
        if a is None or b is None:
            return None
        fa, fb = ia[0], ib[0]
        numa = ("INTEGER", "REAL", "NUMERIC")
        if fa in numa and fb not in numa:
            b = apply_aff(b, "NUMERIC")
        elif fb in numa and fa not in numa:
            a = apply_aff(a, "NUMERIC")
        elif fa == "TEXT" and fb is None:
            b = apply_aff(b, "TEXT")
        elif fb == "TEXT" and fa is None:
            a = apply_aff(a, "TEXT")
        coll = ia[1] or ib[1]
        if op == "=":
            return v_eq(a, b, coll)
        if op == "!=":
            return tnot(v_eq(a, b, coll))
        if op == "<":
            return v_lt(a, b, coll)
        if op == ">":
            return v_lt(b, a, coll)
        if op == "<=":
            return tnot(v_lt(b, a, coll))
        return tnot(v_lt(a, b, coll))

    def compare(self, op, ea, eb, scope):
        av, ai = self.evrow(ea, scope)
        bv, bi = self.evrow(eb, scope)
        return self.compare_v(op, av, ai, bv, bi)

    def compare_v(self, op, av, ai, bv, bi):
        if len(av) != len(bv):
            raise OperationalError("row value misused")
        if len(av) == 1:
            return self.cmp1(op, av[0], bv[0], ai[0], bi[0])
        if op in ("=", "!="):
            out = True
            null = False
            for x, y, i, j in zip(av, bv, ai, bi):
                t = self.cmp1("=", x, y, i, j)
                if t is None:
                    null = True
                else:
                    out = tand(out, t)
            if null:
                if out is False or (out is not True and not decide(out)):
                    out = False
                else:
                    return None
            return tnot(out) if op == "!=" else out
        strict = op[0]
        res = op in ("<=", ">=")
        for x, y, i, j in reversed(list(zip(av, bv, ai, bi))):
            lt = self.cmp1(strict, x, y, i, j)
            eq = self.cmp1("=", x, y, i, j)
            if lt is None or eq is None or res is None:
                return None
            res = tor(lt, tand(eq, res))
        return res

    def ev(self, e, scope):
        k = e[0]
        if k == "lit":
            return e[1]
        if k == "param":
            try:
                return self.params[e[1]]
            except (IndexError, KeyError):
                return None
        if k == "colref":
            return self.colval(e, scope)
        if k == "cmp":
            t = self.compare(e[1], e[2], e[3], scope)
            return None if t is None else mkbool(t)
        if k in ("and", "or", "not"):
            t = self.pred(e, scope)
            return None if t is None else mkbool(t)
        if k == "is":
            av, ai = self.evrow(e[1], scope)
            bv, bi = self.evrow(e[2], scope)
            out = True
            for x, y, i, j in zip(av, bv, ai, bi):
                if x is None or y is None:
                    out = tand(out, x is None and y is None)
                else:
                    out = tand(out, self.cmp1("=", x, y, i, j))
            return mkbool(out)
        if k == "between":
            a = self.compare(">=", e[1], e[2], scope)
            b = self.compare("<=", e[1], e[3], scope)
            if a is None or b is None:
                o = b if a is None else a
                if o is None or o is True:
                    return None
                return None if o is not False and decide(o) else False
            return mkbool(tand(a, b))
        if k == "bin":
            return self.binop(e[1], self.ev(e[2], scope), self.ev(e[3], scope))
        if k == "un":
            v = to_num(self.ev(e[2], scope))
            if v is None:
                return None
            return -v if e[1] == "-" else ~int(v)
        if k == "func":
            return self.func(e, scope)
        if k == "scalar":
            rows, names, _ = self.run_select(e[1], scope, limit1=True)
            if len(names) != 1:
                raise OperationalError(
                    "sub-select returns %d columns - expected 1" % len(names)
                )
            return rows[0][0] if rows else None
        if k == "exists":
            return mkbool(self.exists(e[1], scope))
        if k == "in_list":
            av, ai = self.evrow(e[1], scope)
            out = False
            null = False
            for it in e[2]:
                bv, bi = self.evrow(it, scope)
                # no affinity from the list items
                t = self.compare_v("=", av, ai, bv, [(None, None, None)] * len(bv))
                if t is None:
                    null = True
                else:
                    out = tor(out, t)
            if null and out is not True:
                return True if decide(out) else None
            return mkbool(out)
        if k == "in_sel":
            av, ai = self.evrow(e[1], scope)
            rows, names, infos = self.run_select(e[2], scope)
            if len(names) != len(av):
                raise OperationalError(
                    "sub-select returns %d columns - expected %d" % (len(names), len(av))
                )
            out = False
            null = False
            for r in rows:
                t = self.compare_v("=", av, ai, list(r), infos)
                if t is None:
                    null = True
                else:
                    out = tor(out, t)
            if rows and any(a is None for a in av):
                return None
            if null and out is not True:
                return True if decide(out) else None
            return mkbool(out)
        if k == "case":
            base = self.ev(e[1], scope) if e[1] is not None else None
            for c, r in e[2]:
                if e[1] is not None:
                    t = self.compare("=", e[1], c, scope)
                else:
                    t = self.pred(c, scope)
                if t is not None and decide(t):
                    return self.ev(r, scope)
            return self.ev(e[3], scope) if e[3] is not None else None
        if k == "cast":
            return self.cast(self.ev(e[1], scope), e[2])
        if k == "collate":
            return self.ev(e[1], scope)
        if k == "like":
            return self.like(e, scope)
        if k == "raise":
            if e[1] == "ignore":
                raise _Ignore()
            msg = self.ev(e[2], scope) if e[2] is not None else ""
            raise IntegrityError(msg)
        if k == "window":
            return self.window(e, scope)
        if k == "now":
            return "2024-01-01 00:00:00"
        if k == "row":
            raise OperationalError("row value misused")
        raise Unsupported("expression %s" % k)

    def cast(self, v, ty):
        if v is None:
            return None
        a = affinity(ty)
        if a == "TEXT":
            return totext(v)
        if a == "BLOB":
            if isinstance(v, (bytes, Blob)):
                return v
            return totext(v).encode()
        if type(v) is SymVal:
            return 0
        if isinstance(v, (bytes, bytearray)) and not isinstance(v, Blob):
            v = v.decode("utf-8", "replace")
        n = to_num(v)
        if a == "INTEGER":
            if type(n) is SymReal:
                raise Unsupported("cast of a symbolic real")
            return n if type(n) is SymInt else int(n)
        if a == "REAL":
            return n * 1.0 if type(n) is SymInt else float(n)
        return n

    def like(self, e, scope):
        a, b = self.ev(e[2], scope), self.ev(e[3], scope)
        if a is None or b is None:
            return None
        if type(a) is SymVal or type(b) is SymVal:
            raise Unsupported("pattern match on an opaque text")
        a, b = totext(a), totext(b)
        if e[1] == "glob":
            import fnmatch

            return re.fullmatch(fnmatch.translate(b), a) is not None
        if e[1] != "like":
            raise Unsupported(e[1])
        esc = totext(self.ev(e[4], scope)) if e[4] is not None else None
        rx = ""
        i = 0
        while i < len(b):
            ch = b[i]
            if esc and ch == esc and i + 1 < len(b):
                i += 1
                rx += re.escape(b[i])
            elif ch == "%":
                rx += ".*"
            elif ch == "_":
                rx += "."
            else:
                rx += re.escape(ch)
            i += 1
        return re.fullmatch(rx, a, re.I | re.S) is not None

    def binop(self, op, a, b):
        if a is None or b is None:
            return None
        if op == "||":
            return totext(norm(a)) + totext(norm(b)) if not (type(a) is SymVal or type(b) is SymVal) else self._nocat()
        if op in ("->", "->>"):
            raise Unsupported("json operator")
        a, b = to_num(a), to_num(b)
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op in ("/", "%"):
            if bterm(b == 0) is True or (bterm(b == 0) is not False and decide(bterm(b == 0))):
                return None
            isint = type(a) in (int, SymInt) and type(b) in (int, SymInt)
            if op == "/":
                if not isint:
                    return sym_div(a, b)
                if type(a) is SymInt or type(b) is SymInt:
                    if type(b) is int and b > 0 and type(a) is SymInt and a.lo is not None and a.lo >= 0:
                        return a // b
                    a, b = int(a.__index__()), int(b.__index__())
                q = abs(a) // abs(b)
                return q if (a >= 0) == (b >= 0) else -q
            a, b = int(a.__index__()) if isint else int(a), int(b.__index__()) if isint else int(b)
            r = abs(a) % abs(b)
            return r if a >= 0 else -r
        a, b = int(a.__index__()), int(b.__index__())
        return {"<<": lambda: a << b, ">>": lambda: a >> b, "&": lambda: a & b, "|": lambda: a | b}[op]()

    def _nocat(self):
        raise Unsupported("concatenation of an opaque text")

    # -- functions
    def func(self, e, scope):
        _, fn, args, distinct, star, filt, order = e
        isagg = (
            (fn in AGG and not (fn in ("min", "max") and len(args) > 1))
            or (fn, len(args)) in self.c.aggregates
            or (fn, -1) in self.c.aggregates
        )
        if isagg:
            s = scope
            while s is not None and s.group is None:
                s = s.parent
            if s is None:
                raise OperationalError("misuse of aggregate: %s()" % fn)
            return self.aggregate(e, s)
        u = self.c.functions.get((fn, len(args))) or self.c.functions.get((fn, -1))
        if u is not None:
            return self.adapt_result(u(*[norm(self.ev(a, scope)) for a in args]))
        if fn in ("coalesce", "ifnull"):
            for a in args:
                v = self.ev(a, scope)
                if v is not None:
                    return v
            return None
        if fn in ("iif", "if"):
            t = self.pred(args[0], scope)
            if t is not None and decide(t):
                return self.ev(args[1], scope)
            return self.ev(args[2], scope) if len(args) > 2 else None
        vs = [norm(self.ev(a, scope)) for a in args]
        if fn == "nullif":
            if vs[0] is None or vs[1] is None:
                return vs[0]
            return None if decide(v_eq(vs[0], vs[1])) else vs[0]
        if fn in ("likely", "unlikely", "likelihood"):
            return vs[0]
        if fn in ("min", "max"):
            if any(v is None for v in vs):
                return None
            r = vs[0]
            for v in vs[1:]:
                lt = v_lt(v, r) if fn == "min" else v_lt(r, v)
                r = self.pick(lt, v, r)
            return r
        if fn == "typeof":
            v = vs[0]
            c = vclass(v)
            if c == 1:
                return "integer" if type(v) in (int, SymInt) else "real"
            return ("null", "", "text", "blob")[c]
        if fn == "changes":
            return self.c.last_changes
        if fn == "total_changes":
            return self.c.total_changes
        if fn == "last_insert_rowid":
            return self.c.last_rowid or 0
        if fn == "sqlite_version":
            return "3.45.1"
        if any(v is None for v in vs) and fn not in ("printf", "format", "concat", "concat_ws", "quote"):
            return None
        if fn == "abs":
            return abs(to_num(vs[0]))
        if any(type(v) in (SymVal, SymReal) for v in vs) or any(isinstance(v, Blob) for v in vs):
            raise Unsupported("function %s on a symbolic value" % fn)
        vs = [v.__index__() if type(v) is SymInt else v for v in vs]
        if fn == "length":
            return len(vs[0]) if isinstance(vs[0], bytes) else len(totext(vs[0]))
        if fn == "lower":
            return "".join(c.lower() if c.isascii() else c for c in totext(vs[0]))
        if fn == "upper":
            return "".join(c.upper() if c.isascii() else c for c in totext(vs[0]))
        if fn in ("trim", "ltrim", "rtrim"):
            f = {"trim": str.strip, "ltrim": str.lstrip, "rtrim": str.rstrip}[fn]
            return f(totext(vs[0]), totext(vs[1]) if len(vs) > 1 else " ")
        if fn == "replace":
            return totext(vs[0]).replace(totext(vs[1]), totext(vs[2])) if vs[1] != "" else totext(vs[0])
        if fn == "instr":
            return totext(vs[0]).find(totext(vs[1])) + 1
        if fn in ("substr", "substring"):
            s = totext(vs[0])
            st = vs[1]
            ln = vs[2] if len(vs) > 2 else len(s) + abs(st) + 1
            if st > 0:
                b = st - 1
            elif st < 0:
                b = len(s) + st
            else:
                b = -1
            en = b + ln
            if ln < 0:
                b, en = b + ln, b
            return s[max(0, b) : max(0, en)]
        if fn == "round":
            return float(round(to_num(vs[0]), vs[1] if len(vs) > 1 else 0))
        if fn == "hex":
            b = vs[0] if isinstance(vs[0], bytes) else totext(vs[0]).encode()
            return b.hex().upper()
        if fn == "char":
            return "".join(chr(v) for v in vs)
        if fn == "unicode":
            return ord(vs[0][0])
        if fn == "sign":
            return (vs[0] > 0) - (vs[0] < 0)
        if fn == "quote":
            if vs[0] is None:
                return "NULL"
            return "'" + vs[0].replace("'", "''") + "'" if isinstance(vs[0], str) else totext(vs[0])
        if fn == "like":
            return self.like(("like", "like", ("lit", vs[1]), ("lit", vs[0]), None), scope)
        raise Unsupported("SQL function %s" % fn)

    def adapt_result(self, v):
        if v is None or type(v) in NUMT or isinstance(v, (str, bytes)) or type(v) is SymVal:
            return v
        raise OperationalError("user-defined function raised exception")

    def pick(self, t, a, b):
        if t is True:
            return a
        if t is False:
            return b
        try:
            return merge(t, a, b)
        except Unsupported:
            return a if decide(t) else b

    def aggregate(self, e, s):
        _, fn, args, distinct, star, filt, order = e
        rows = s.group  # list of (guard, [(row, rowid)...])
        save_group = s.group
        saved = [(x.row, x.rowid) for x in s.sources]
        items = []
        s.group = None
        try:
            seq = rows
            if order:
                seq = self.sort_rows(
                    [(r, None) for r in rows if decide(r[0])], order, s, restore=True
                )
                seq = [(True, r[0][1]) for r in seq]
            for g, vals in seq:
                for src, (r, rid) in zip(s.sources, vals):
                    src.row, src.rowid = r, rid
                if filt is not None:
                    g = tand(g, self.holds(filt, s))
                if g is False:
                    continue
                vs = [norm(self.ev(a, s)) for a in args]
                items.append((g, vs))
            coll = self.colinfo(args[0], s)[1] if args else None
        finally:
            s.group = save_group
            for src, (r, rid) in zip(s.sources, saved):
                src.row, src.rowid = r, rid
        if star or (fn == "count" and not args):
            return count_terms([g for g, _ in items])
        u = self.c.aggregates.get((fn, len(args))) or self.c.aggregates.get((fn, -1))
        if u is not None:
            obj = u()
            for g, vs in items:
                if g is True or decide(g):
                    obj.step(*vs)
            return self.adapt_result(obj.finalize())
        items = [(g, vs[0]) for g, vs in items if vs[0] is not None]
        if distinct:
            keep = []
            for g, v in items:
                dup = False
                for g2, v2 in keep:
                    dup = tor(dup, tand(g2, v_eq(v, v2, coll)))
                keep.append((tand(g, tnot(dup)), v))
            items = [(g, v) for g, v in keep if g is not False]
        if fn == "count":
            return count_terms([g for g, _ in items])
        if fn in ("sum", "total", "avg"):
            tot = 0
            for g, v in items:
                n = to_num(v)
                tot = tot + (n if g is True else merge(g, n, 0))
            if fn == "total":
                return tot * 1.0
            any_ = tor(*[g for g, _ in items])
            if any_ is False or (any_ is not True and not decide(any_)):
                return None
            if fn == "sum":
                return tot
            return sym_div(tot * 1.0, count_terms([g for g, _ in items]))
        items = [v for g, v in items if g is True or decide(g)]
        if not items:
            return None
        if fn in ("min", "max"):
            r = items[0]
            for v in items[1:]:
                t = v_lt(v, r, coll) if fn == "min" else v_lt(r, v, coll)
                r = self.pick(t, v, r)
            return r
        if fn in ("group_concat", "string_agg"):
            sep = ","
            if len(args) > 1:
                sep = totext(self.ev(args[1], s))
            if any(type(v) is SymVal for v in items):
                raise Unsupported("group_concat of opaque texts")
            return sep.join(totext(v) for v in items)
        raise Unsupported("aggregate %s" % fn)

    def window(self, e, scope):
        _, fn, args, star, part, order = e
        if scope.winrows is None:
            raise OperationalError("misuse of window function %s()" % fn)
        cur = scope.wincur
        rows = scope.winrows
        saved = [(x.row, x.rowid) for x in scope.sources]

        def load(vals):
            for src, (r, rid) in zip(scope.sources, vals):
                src.row, src.rowid = r, rid

        def keyed(vals, es):
            load(vals)
            return [self.ev(x, scope) for x in es]

        pk = keyed(rows[cur], part)
        mine = []
        for j, vals in enumerate(rows):
            if all(decide(v_same(a, b)) for a, b in zip(pk, keyed(vals, part))):
                mine.append(j)
        if order:
            ok = {j: keyed(rows[j], [o[0] for o in order]) for j in mine}
            mine = self.sort_keys([(ok[j], j) for j in mine], order)
        load(saved)
        pos = mine.index(cur)

        def peers(a, b):
            return all(decide(v_same(x, y)) for x, y in zip(ok[a], ok[b])) if order else True

        if fn == "row_number":
            return pos + 1
        if fn == "rank":
            k = pos
            while k > 0 and peers(mine[k - 1], cur):
                k -= 1
            return k + 1
        if fn == "dense_rank":
            r = 1
            for a, b in zip(mine[:pos], mine[1 : pos + 1]):
                if not peers(a, b):
                    r += 1
            return r
        if fn in ("lag", "lead"):
            off = 1 if len(args) < 2 else self.ev(args[1], scope)
            j = pos - off if fn == "lag" else pos + off
            if 0 <= j < len(mine):
                v = keyed(rows[mine[j]], [args[0]])[0]
                load(saved)
                return v
            return self.ev(args[2], scope) if len(args) > 2 else None
        # aggregate over the default frame
        end = len(mine)
        if order:
            end = pos + 1
            while end < len(mine) and peers(mine[end], cur):
                end += 1
        save = scope.group
        scope.group = [(True, rows[j]) for j in mine[:end]]
        try:
            return self.aggregate(("func", fn, args, False, star, None, None), scope)
        finally:
            scope.group = save
            load(saved)

    # -- sources
    def table_source(self, q, alias, scope, ctes):
        """(Source, list of (row, rowid))"""
        schema, name = q
        nl = name.lower()
        if schema is None:
            s = ctes
            while s is not None:
                if nl in s[0]:
                    return self.cte_source(s, nl, alias or name, scope)
                s = s[1]
        if nl in ("sqlite_master", "sqlite_schema", "sqlite_temp_master"):
            sch = schema.lower() if schema else ("temp" if nl == "sqlite_temp_master" else "main")
            st = self.c.read_state(sch)
            cols = ["type", "name", "tbl_name", "rootpage", "sql"]
            rows = []
            n = 0
            for ty, nm in st.order:
                n += 1
                if ty == "table":
                    t = st.tables[nm]
                    rows.append(((ty, t.name, t.name, n, t.sql), n))
                    k = 0
                    for u in t.uniques:
                        if u[0] != "rowid" and len(u) == 3:
                            k += 1
                            n += 1
                            rows.append((("index", "sqlite_autoindex_%s_%d" % (t.name, k), t.name, n, None), n))
                elif ty == "index":
                    i = st.indexes[nm]
                    rows.append(((ty, i["name"], i["table"], n, i["sql"]), n))
                elif ty == "trigger":
                    t = st.triggers[nm]
                    rows.append(((ty, t["name"], t["table"], 0, t["sql"]), n))
                else:
                    t = st.views[nm]
                    rows.append(((ty, t["name"], t["name"], 0, t["sql"]), n))
            return Source(alias or name, cols, ["TEXT", "TEXT", "TEXT", "INTEGER", "TEXT"], ["text"] * 5, None, sch), rows
        r = self.c.find_table(schema, name)
        if r is None:
            v = self.c.find_view(schema, name)
            if v is not None:
                rows, names, infos = self.run_select(v["select"], None)
                if v["cols"]:
                    names = v["cols"]
                return (
                    Source(alias or name, names, [i[0] for i in infos], [i[2] for i in infos]),
                    [(r, None) for r in rows],
                )
            raise OperationalError(
                "no such table: %s" % (name if schema is None else "%s.%s" % (schema, name))
            )
        sch, t = r
        src = Source(
            alias or t.name,
            [c.name for c in t.cols],
            [c.aff for c in t.cols],
            [c.type for c in t.cols],
            [c.collate for c in t.cols],
            sch,
        )
        return src, [(vals, rid) for rid, vals in t.rows]

    def cte_source(self, level, nl, alias, scope):
        env, parent = level
        c = env[nl]
        if c.get("rows") is None:
            if c.get("building") is not None:
                b = c["building"]
                return Source(alias, b[1], b[2], [None] * len(b[1])), [(r, None) for r in b[0]]
            sel = c["select"]
            if c["rec"] and len(sel[2]) > 1 and self._mentions(sel[2][-1], nl):
                self.recursive_cte(c, nl, level, scope)
            else:
                rows, names, infos = self.run_select(sel, c.get("scope"), ctes=c["env"])
                if c["cols"]:
                    names = c["cols"]
                c["rows"] = rows
                c["names"] = names
                c["infos"] = infos
        return (
            Source(alias, c["names"], [i[0] for i in c["infos"]], [i[2] for i in c["infos"]]),
            [(r, None) for r in c["rows"]],
        )

    def _mentions(self, node, name):
        if isinstance(node, (tuple, list)):
            if len(node) == 3 and node[0] == "table" and isinstance(node[1], tuple) and node[1][1].lower() == name:
                return True
            return any(self._mentions(x, name) for x in node)
        return False

    def recursive_cte(self, c, nl, level, scope):
        _, ctes, parts, order, limit = c["select"]
        op, last = parts[-1]
        rows, names, infos = self.run_select(("sel", ctes, parts[:-1], [], None), c.get("scope"), ctes=level)
        if c["cols"]:
            names = c["cols"]
        allrows = list(rows)
        queue = list(rows)
        lim = None
        if limit is not None:
            lim = self.ev(limit[0], Scope([], scope, None))
        while queue and len(allrows) < 5000:
            if lim is not None and len(allrows) >= lim:
                break
            cur = [queue.pop(0)]
            c["building"] = (cur, names, [i[0] for i in infos])
            new, _, _ = self.run_select(("sel", [], [(None, last)], [], None), c.get("scope"), ctes=level)
            c["building"] = None
            for r in new:
                if op == "union" and any(self.rows_same(r, o) for o in allrows):
                    continue
                allrows.append(r)
                queue.append(r)
        if lim is not None:
            allrows = allrows[:lim]
        c["rows"], c["names"], c["infos"] = allrows, names, infos

    def bind_sources(self, frm, scope, ctes):
        """scope with unfilled sources, for type information only"""
        srcs = []
        if frm:
            env = self.cte_env(ctes, scope)
            for jt, ref, on, using in frm:
                if ref[0] == "table":
                    s, _ = self.table_source(ref[1], ref[2], scope, env)
                    srcs.append(s)
        return Scope(srcs, scope, None)

    def cte_env(self, ctes, scope, outer=None):
        base = outer if outer is not None else (scope.ctes if scope is not None else None)
        for n, cols, sel, rec in ctes or ():
            env = {}
            level = (env, base)
            env[n.lower()] = {
                "select": sel,
                "cols": cols,
                "rec": rec,
                "rows": None,
                "env": level if rec else base,
                "scope": scope,
            }
            base = level
        return base

    def from_rows(self, frm, parent, ctes, where=None, cols=()):
        """(scope, list of (guard, [(row,rowid)...]))"""
        scope = Scope([], parent, ctes)
        # WHERE can also use the names of results
        aliases = {}
        for c in cols:
            if c[0] == "col" and c[2] is not None:
                aliases.setdefault(c[2].lower(), c[1])
        if not frm:
            scope.aliases = aliases
            combos = [(True, [])]
            if where is not None:
                g = self.holds(where, scope)
                combos = [(g, [])] if g is not False else []
            return scope, combos
        conj = []
        if where is not None:
            conj = self.split_and(where)
        combos = [(True, [])]
        for n, (jt, ref, on, using) in enumerate(frm):
            if ref[0] == "table":
                src, rows = self.table_source(ref[1], ref[2], parent, ctes)
            elif ref[0] == "subq":
                rws, names, infos = self.run_select(ref[1], parent, ctes=ctes)
                src = Source(ref[2], names, [i[0] for i in infos], [i[2] for i in infos])
                rows = [(r, None) for r in rws]
            elif ref[0] == "nested":
                s2, c2 = self.from_rows(ref[1], parent, ctes)
                if len(s2.sources) == 1:
                    src = s2.sources[0]
                    rows = [v[0] for g, v in c2 if decide(g)]
                else:
                    cols, affs, decls = [], [], []
                    for x in s2.sources:
                        cols += x.cols
                        affs += x.affs
                        decls += x.decls
                    src = Source(ref[2], cols, affs, decls)
                    rows = [
                        (tuple(c for (r, _), x in zip(v, s2.sources) for c in (r if r is not None else [None] * len(x.cols))), None)
                        for g, v in c2
                        if decide(g)
                    ]
            elif ref[0] == "tfunc":
                src, rows = self.table_function(ref, parent)
            else:
                raise Unsupported("from %s" % ref[0])
            scope.sources.append(src)
            if using == "natural":
                prev = set()
                for s in scope.sources[:-1]:
                    prev |= set(s.idx)
                using = [c for c in src.cols if c.lower() in prev]
            if using:
                for c in using:
                    src.hidden.add(c.lower())
            if n + 1 == len(frm):
                scope.aliases = aliases
            # conjuncts of WHERE that can be decided now
            ready = []
            if jt != "left":
                rest = []
                for c in conj:
                    (ready if self.resolvable(c, scope, n + 1 == len(frm)) else rest).append(c)
                # a left join later must not see filtered rows differently: filtering
                # the left side early is equivalent
                conj = rest
            out = []
            if len(rows) > PREFILTER:
                rows = self.prefilter(frm, n, src, rows, jt, on, where, scope, aliases)
            joinable = self.join_index(scope, src, rows, using)
            for g, vals in combos:
                for s, (r, rid) in zip(scope.sources, vals):
                    s.row, s.rowid = r, rid
                matched = False
                for row, rid in joinable(g, rows):
                    src.row, src.rowid = row, rid
                    t = g
                    if using:
                        for c in using:
                            cl = c.lower()
                            for s in scope.sources[:-1]:
                                if cl in s.idx and cl not in s.hidden:
                                    a = s.row[s.idx[cl]] if s.row is not None else None
                                    b = row[src.idx[cl]]
                                    p = self.cmp1(
                                        "=",
                                        a,
                                        b,
                                        (s.affs[s.idx[cl]], None, None),
                                        (src.affs[src.idx[cl]], None, None),
                                    )
                                    t = tand(t, False if p is None else p)
                                    break
                    if t is not False and on is not None:
                        t = tand(t, self.holds(on, scope))
                    if jt == "left":
                        if t is False or (t is not True and not decide(t)):
                            continue
                        matched = True
                        t = g
                    for c in ready:
                        if t is False:
                            break
                        t = tand(t, self.holds(c, scope))
                    if t is False:
                        continue
                    out.append((t, vals + [(row, rid)]))
                if jt == "left" and not matched:
                    out.append((g, vals + [(None, None)]))
            combos = out
        if conj:
            out = []
            for g, vals in combos:
                for s, (r, rid) in zip(scope.sources, vals):
                    s.row, s.rowid = r, rid
                for c in conj:
                    if g is False:
                        break
                    g = tand(g, self.holds(c, scope))
                if g is not False:
                    out.append((g, vals))
            combos = out
        return scope, combos

    def prefilter(self, frm, n, src, rows, jt, on, where, scope, aliases):
        """rows without those that a conjunct `column = value` certainly rejects:
        both sides known and of one type, so that no conversion makes them equal"""
        conds = []
        if where is not None and jt != "left":
            conds += self.split_and(where)
        if on is not None and jt != "left":
            conds += self.split_and(on)
        for c in conds:
            if c[0] != "cmp" or c[1] != "=":
                continue
            a, b = c[2], c[3]
            if a[0] == "row" and b[0] == "row" and len(a[1]) == len(b[1]):
                pairs = list(zip(a[1], b[1]))
            elif a[0] != "row" and b[0] != "row":
                pairs = [(a, b)]
            else:
                continue
            for x, y in pairs:
                if x[0] != "colref":
                    x, y = y, x
                if x[0] != "colref" or (y[0] == "colref" and len(frm) > 1):
                    continue
                if y[0] not in ("param", "lit", "colref"):
                    continue
                i = self.own_column(frm, src, x, scope, aliases)
                if i is None:
                    continue
                if y[0] == "colref":
                    # only of an enclosing query
                    if self.own_column(frm, src, y, scope, aliases) is not None or scope.parent is None or y[2].lower() in ROWIDS:
                        continue
                    if y[2].lower() in aliases or (y[1] is None and y[2].lower() in src.idx):
                        continue
                    if y[1] is not None and y[1].lower() == src.name:
                        continue
                    try:
                        k = self.colval(y, scope.parent)
                    except DatabaseError:
                        continue
                    if type(k) is not int:
                        continue
                else:
                    k = self.ev(y, scope)
                tk = type(k)
                if tk is str and (src.colls[i] is not None or src.affs[i] not in (None, "TEXT", "BLOB")):
                    continue
                if tk is not int and tk is not str:
                    continue
                if tk is int and src.affs[i] == "TEXT":
                    continue
                rows = [r for r in rows if type(r[0][i]) is not tk or r[0][i] == k]
        return rows

    def own_column(self, frm, src, e, scope, aliases):
        """position of the column of `src` that `e` names for certain"""
        name = e[2].lower()
        if name not in src.idx or name in src.hidden:
            return None
        if e[1] is None:
            return src.idx[name] if len(frm) == 1 else None
        if e[3] is not None or e[1].lower() != src.name:
            return None
        if sum(1 for s in scope.sources if s.name == src.name) > 1 or len(frm) > 1 and any(f[1][0] != "table" for f in frm):
            return None
        return src.idx[name]

    def join_index(self, scope, src, rows, using):
        """which rows can match on the first column joined on: those with the
        same number, where both numbers are known"""
        every = lambda g, rows: rows
        if not using or len(rows) < 2:
            return every
        cl = using[0].lower()
        left = None
        for s in scope.sources[:-1]:
            if cl in s.idx and cl not in s.hidden:
                left = s
                break
        at = src.idx[cl]
        if left is None or left.affs[left.idx[cl]] != "INTEGER" or src.affs[at] != "INTEGER":
            return every
        by, unknown = {}, []
        for n, r in enumerate(rows):
            v = r[0][at]
            if type(v) is int:
                by.setdefault(v, []).append(n)
            else:
                unknown.append(n)

        def some(g, rows):
            v = left.row[left.idx[cl]] if left.row is not None else None
            if type(v) is not int:
                return rows
            return [rows[n] for n in sorted(by.get(v, []) + unknown)]

        return some

    def split_and(self, e):
        if e[0] == "and":
            return self.split_and(e[1]) + self.split_and(e[2])
        return [e]

    def resolvable(self, e, scope, last):
        if last:
            return True
        # subqueries and unqualified names are decided at the end
        def ok(x):
            if isinstance(x, tuple) and x:
                if x[0] == "colref":
                    t = x[1].lower() if x[1] else None
                    if t is None:
                        return False
                    return any(s.name == t for s in scope.sources)
                if x[0] in ("scalar", "exists", "in_sel", "sel"):
                    return False
                return all(ok(y) for y in x[1:])
            if isinstance(x, list):
                return all(ok(y) for y in x)
            return True

        return ok(e)

    def table_function(self, ref, scope):
        name = ref[1][1].lower()
        args = [self.ev(a, Scope([], scope, None)) for a in ref[2]]
        if name.startswith("pragma_"):
            rows, names = self.c.pragma(None, name[7:], args[0] if args else None)
            return Source(ref[3] or name, names, [None] * len(names), [None] * len(names)), [(tuple(r), None) for r in rows]
        if name == "generate_series":
            a = args + [1] if len(args) == 2 else args
            rows = [((v,), None) for v in range(int(a[0]), int(a[1]) + 1, int(a[2]))]
            return Source(ref[3] or name, ["value"], ["INTEGER"], [None]), rows
        if name == "json_each":
            import json

            if not isinstance(args[0], str) or type(args[0]) is SymVal:
                raise Unsupported("json_each")
            vals = json.loads(args[0])
            it = enumerate(vals) if isinstance(vals, list) else vals.items()
            rows = [((k, v), None) for k, v in it]
            return Source(ref[3] or name, ["key", "value"], [None] * 2, [None] * 2), rows
        raise Unsupported("table function %s" % name)

    # -- select
    def has_agg(self, e):
        if isinstance(e, (tuple, list)):
            if e and e[0] == "func":
                fn, args = e[1], e[2]
                if (
                    (fn in AGG and not (fn in ("min", "max") and len(args) > 1))
                    or (fn, len(args)) in self.c.aggregates
                    or (fn, -1) in self.c.aggregates
                ):
                    return True
            if e and e[0] in ("sel",):
                return False
            return any(self.has_agg(x) for x in e)
        return False

    def has_window(self, e):
        if isinstance(e, (tuple, list)):
            if e and e[0] == "window":
                return True
            if e and e[0] == "sel":
                return False
            return any(self.has_window(x) for x in e)
        return False

    def guardable(self, e):
        """only guarded aggregates (count, sum) and constants"""
        if isinstance(e, tuple) and e:
            if e[0] == "func":
                if e[1] in ("count", "sum", "total"):
                    return True
                if e[1] in ("coalesce", "ifnull"):
                    return all(self.guardable(a) for a in e[2])
                return False
            if e[0] in ("lit", "param"):
                return True
            if e[0] in ("bin", "cmp"):
                return self.guardable(e[2]) and self.guardable(e[3])
            return False
        return False

    def exists(self, sel, scope):
        _, ctes, parts, order, limit = sel
        if len(parts) == 1 and parts[0][1][0] == "core" and limit is None:
            _, distinct, cols, frm, where, group, having = parts[0][1]
            if not group and having is None and not self.has_agg(cols):
                env = self.cte_env(ctes, scope)
                s, combos = self.from_rows(frm, scope, env, where, cols)
                return tor(*[g for g, _ in combos])
        rows, _, _ = self.run_select(sel, scope)
        return bool(rows)

    def rows_same(self, a, b):
        t = True
        for x, y in zip(a, b):
            t = tand(t, v_same(x, y))
            if t is False:
                return False
        return t is True or decide(t)

    def run_select(self, sel, scope, limit1=False, ctes=None):
        """(rows, names, infos); infos = (affinity, collation, decltype)"""
        _, c, parts, order, limit = sel
        env = self.cte_env(c, scope, ctes)
        lim = off = None
        if limit is not None:
            ls = Scope([], scope, env)
            lim = self.ev(limit[0], ls)
            off = self.ev(limit[1], ls) if limit[1] is not None else None
            lim = self.as_int(lim)
            off = self.as_int(off)
            if lim is None or lim < 0:
                lim = None
        if len(parts) == 1:
            rows, names, infos = self.run_core(parts[0][1], scope, env, order)
        else:
            rows, names, infos = self.run_core(parts[0][1], scope, env, [])
            for op, corep in parts[1:]:
                r2, n2, i2 = self.run_core(corep, scope, env, [])
                if len(n2) != len(names):
                    raise OperationalError(
                        "SELECTs to the left and right of %s do not have the same number of result columns"
                        % op.upper()
                    )
                if op == "union all":
                    rows = rows + r2
                elif op == "union":
                    out = []
                    for r in rows + r2:
                        if not any(self.rows_same(r, o) for o in out):
                            out.append(r)
                    rows = out
                else:
                    out = []
                    for r in rows:
                        inb = any(self.rows_same(r, o) for o in r2)
                        if inb == (op == "intersect") and not any(self.rows_same(r, o) for o in out):
                            out.append(r)
                    rows = out
            if order:
                src = Source(None, names, [i[0] for i in infos], [None] * len(names))
                sc = Scope([src], scope, env)
                keyed = []
                for r in rows:
                    src.row = r
                    keyed.append(([self.order_val(o[0], sc, r) for o in order], r))
                rows = self.sort_keys(keyed, order)
        if off:
            rows = rows[off:]
        if lim is not None:
            rows = rows[:lim]
        if limit1:
            rows = rows[:1]
        return rows, names, infos

    def as_int(self, v):
        if v is None:
            return None
        v = apply_aff(v, "NUMERIC")
        if type(v) is SymInt:
            return v.__index__()
        if type(v) is not int:
            raise IntegrityError("datatype mismatch")
        return v

    def order_val(self, e, sc, row):
        if e[0] == "lit" and type(e[1]) is int:
            return row[e[1] - 1]
        return self.ev(e, sc)

    def run_core(self, corep, scope, env, order):
        if corep[0] == "values":
            sc = Scope([], scope, env)
            rows = [tuple(norm(self.ev(e, sc)) for e in r) for r in corep[1]]
            n = len(rows[0])
            names = ["column%d" % (i + 1) for i in range(n)]
            return rows, names, [(None, None, None)] * n
        _, distinct, cols, frm, where, group, having = corep
        s, combos = self.from_rows(frm, scope, env, where, cols)
        # expand stars
        out = []
        for c in cols:
            if c[0] == "star":
                if not s.sources:
                    raise OperationalError("no tables specified")
                hit = False
                for src in s.sources:
                    if c[1] is not None and src.name != c[1].lower():
                        continue
                    hit = True
                    for i, cn in enumerate(src.cols):
                        if c[1] is None and cn.lower() in src.hidden:
                            continue
                        out.append((("srccol", src, i), cn))
                if not hit:
                    raise OperationalError("no such table: %s" % c[1])
            else:
                e, alias, text = c[1], c[2], c[3]
                name = alias
                if name is None:
                    name = text
                    if e[0] == "colref":
                        r = self.lookup(s, e[1], e[2], e[3])
                        name = e[2]
                        if r is not None and r[2] is not None and r[2] >= 0:
                            name = r[1].cols[r[2]]
                out.append((e, name))
        names = [n for _, n in out]
        infos = []
        for e, _ in out:
            if e[0] == "srccol":
                src, i = e[1], e[2]
                infos.append((src.affs[i], src.colls[i], src.decls[i]))
            else:
                infos.append(self.colinfo(e, s))

        def project():
            r = []
            for e, _ in out:
                if e[0] == "srccol":
                    r.append(e[1].row[e[2]] if e[1].row is not None else None)
                else:
                    r.append(norm(self.ev(e, s)))
            return tuple(r)

        def load(vals):
            for src, (r, rid) in zip(s.sources, vals):
                src.row, src.rowid = r, rid

        exprs = [e for e, _ in out if e[0] != "srccol"]
        agg = bool(group) or self.has_agg(exprs) or (having is not None) or self.has_agg([o[0] for o in order])
        keyed = []
        if agg:
            groups = []
            if not group:
                if not (all(self.guardable(e) for e in exprs) and having is None):
                    combos = [(True, v) for g, v in combos if decide(g)]
                groups = [(None, combos)]
            else:
                gexprs = []
                for g in group:
                    if g[0] == "lit" and type(g[1]) is int:
                        gexprs.append(out[g[1] - 1][0])
                    else:
                        gexprs.append(g)
                colls = [None if g[0] == "srccol" else self.colinfo(g, s)[1] for g in gexprs]
                for g, vals in combos:
                    if not decide(g):
                        continue
                    load(vals)
                    key = [
                        (e[1].row[e[2]] if e[0] == "srccol" else norm(self.ev(e, s)))
                        for e in gexprs
                    ]
                    for k2, members in groups:
                        t = True
                        for x, y, cl in zip(key, k2, colls):
                            t = tand(t, v_same(x, y, cl))
                        if decide(t):
                            members.append((True, vals))
                            break
                    else:
                        groups.append((key, [(True, vals)]))
                # groups come out in key order when that is concrete
                try:
                    if all(
                        all(vclass(v) in (0, 1, 2) and type(v) in (int, float, str, type(None)) for v in k)
                        for k, _ in groups
                    ):
                        groups.sort(key=lambda kv: [(vclass(v), v if v is not None else 0) for v in kv[0]])
                except TypeError:
                    pass
            for key, members in groups:
                s.group = members
                if members:
                    bare = members[0][1]
                    # bare columns follow a single min()/max()
                    mm = self.single_minmax(exprs)
                    if mm is not None and len(members) > 1:
                        bare = self.minmax_row(mm, s, members)
                    load(bare)
                else:
                    load([(None, None)] * len(s.sources))
                if having is not None and not decide(self.holds(having, s)):
                    s.group = None
                    continue
                row = project()
                keyed.append(([self.order_of(o, s, row, out) for o in order], row))
                s.group = None
        else:
            combos = [v for g, v in combos if g is True or decide(g)]
            win = self.has_window(exprs)
            if win:
                s.winrows = combos
            for i, vals in enumerate(combos):
                load(vals)
                if win:
                    s.wincur = i
                row = project()
                keyed.append(([self.order_of(o, s, row, out) for o in order], row))
        if distinct:
            uniq = []
            for k, r in keyed:
                if not any(self.rows_same(r, o) for _, o in uniq):
                    uniq.append((k, r))
            keyed = uniq
        if order:
            oc = []
            for o in order:
                e = o[0]
                if e[0] == "lit" and type(e[1]) is int:
                    oc.append(infos[e[1] - 1][1])
                else:
                    oc.append(self.colinfo(e, s)[1])
            rows = self.sort_keys(keyed, order, oc)
        else:
            rows = [r for _, r in keyed]
        return rows, names, infos

    def single_minmax(self, exprs):
        found = []

        def walk(x):
            if isinstance(x, (tuple, list)):
                if x and x[0] == "sel":
                    return
                if x and x[0] == "func" and x[1] in ("min", "max") and len(x[2]) == 1:
                    found.append(x)
                for y in x:
                    walk(y)

        walk(exprs)
        return found[0] if len(found) == 1 else None

    def minmax_row(self, mm, s, members):
        best = None
        for _, vals in members:
            for src, (r, rid) in zip(s.sources, vals):
                src.row, src.rowid = r, rid
            g = s.group
            s.group = None
            v = self.ev(mm[2][0], s)
            s.group = g
            if v is None:
                continue
            if best is None:
                best = (v, vals)
            else:
                t = v_lt(v, best[0]) if mm[1] == "min" else v_lt(best[0], v)
                if decide(t):
                    best = (v, vals)
        return best[1] if best else members[0][1]

    def order_of(self, o, s, row, out):
        e = o[0]
        if e[0] == "lit" and type(e[1]) is int:
            return row[e[1] - 1]
        if e[0] == "colref" and e[1] is None:
            for i, (_, n) in enumerate(out):
                if n is not None and n.lower() == e[2].lower():
                    return row[i]
        return norm(self.ev(e, s))

    def sort_keys(self, keyed, order, colls=None):
        """stable insertion sort; comparisons may fork"""
        colls = colls or [None] * len(order)

        def before(a, b):
            for x, y, o, cl in zip(a, b, order, colls):
                desc = o[1]
                if x is None or y is None:
                    if x is None and y is None:
                        continue
                    first = o[2] == "first" if o[2] else not desc
                    return (x is None) == first
                lt = v_lt(y, x, cl) if desc else v_lt(x, y, cl)
                if lt is True or (lt is not False and decide(lt)):
                    return True
                gt = v_lt(x, y, cl) if desc else v_lt(y, x, cl)
                if gt is True or (gt is not False and decide(gt)):
                    return False
            return False

        out = []
        for k, r in keyed:
            j = len(out)
            while j > 0 and before(k, out[j - 1][0]):
                j -= 1
            out.insert(j, (k, r))
        return [r for _, r in out]

    def sort_rows(self, rows, order, s, restore=False):
        keyed = []
        for r in rows:
            for src, (row, rid) in zip(s.sources, r[0][1]):
                src.row, src.rowid = row, rid
            keyed.append(([self.ev(o[0], s) for o in order], r))
        return self.sort_keys(keyed, order)

    # -- modifications
    def triggers(self, sch, tname, ev, when):
        out = []
        for a in (sch, "temp") if sch != "temp" else ("temp",):
            st = self.c.read_state(a, touch=False)
            for n in [nm for ty, nm in st.order if ty == "trigger"]:
                t = st.triggers[n]
                if t["table"].lower() == tname and t["event"] == ev and t["when"] == when:
                    out.append((a, n, t))
        return out

    def fire(self, sch, tname, ev, when, old, new, table, orx, updated=None):
        """returns False if the row is to be ignored"""
        for a, n, t in self.triggers(sch, tname, ev, when):
            if (a, n) in self.active_triggers and not self.c.recursive_triggers:
                continue
            if t["of"] is not None and updated is not None:
                if not (set(c.lower() for c in t["of"]) & updated):
                    continue
            srcs = []
            for nm, r in (("old", old), ("new", new)):
                if r is not None:
                    s = Source(
                        nm,
                        [c.name for c in table.cols],
                        [c.aff for c in table.cols],
                        [c.type for c in table.cols],
                    )
                    s.row = r[1]
                    s.rowid = r[0]
                    srcs.append(s)
            sc = Scope(srcs, None, None)
            if t["cond"] is not None:
                p = self.pred(t["cond"], sc)
                if p is None or not decide(p):
                    continue
            self.active_triggers.append((a, n))
            changes = self.changes
            try:
                over = None if orx == "abort" else ("abort" if orx == "xabort" else orx)
                for st in t["body"]:
                    if st[0] == "select":
                        self.run_select(st[1], sc)
                    elif st[0] == "insert":
                        self.insert(st, sc, over, sch)
                    elif st[0] == "update":
                        self.update(st, sc, over, sch)
                    elif st[0] == "delete":
                        self.delete(st, sc, sch)
            except _Ignore:
                return False
            finally:
                self.active_triggers.pop()
                self.changes = changes
        return True

    def target(self, q, defsch=None):
        schema, name = q
        if schema is None and defsch is not None:
            r = self.c.find_table(defsch, name)
            if r is not None:
                return r
        r = self.c.find_table(schema, name)
        if r is None:
            if name.lower() in ("sqlite_master", "sqlite_schema"):
                raise OperationalError("table %s may not be modified" % name)
            raise OperationalError(
                "no such table: %s" % (name if schema is None else "%s.%s" % (schema, name))
            )
        return r

    def conflicts(self, t, rowid, vals, skip=None):
        """existing rows that break a uniqueness constraint: [(label, policy, rowid)]"""
        out = []
        for cols, policy, label, *_ in t.uniques:
            if cols == "rowid":
                known = type(rowid) is int
                for rid, v in t.rows:
                    if known and type(rid) is int and rid != rowid:
                        continue
                    if skip is not None and rid is skip[0]:
                        continue
                    e = v_eq(rid, rowid)
                    if e is True or (e is not False and decide(e)):
                        out.append((label, policy, rid))
                        break
                continue
            key = [vals[i] for i in cols]
            if any(k is None for k in key):
                continue
            first, at = key[0], cols[0]
            known = type(first) if type(first) in (int, str) and t.cols[at].collate is None else None
            for rid, v in t.rows:
                if known is not None and type(v[at]) is known and v[at] != first:
                    continue
                if skip is not None and rid is skip[0]:
                    continue
                e = True
                for k, i in zip(key, cols):
                    if v[i] is None:
                        e = False
                        break
                    e = tand(e, v_eq(k, v[i], t.cols[i].collate))
                    if e is False:
                        break
                if e is True or (e is not False and decide(e)):
                    out.append((label, policy, rid))
                    break
        return out

    def put_row(self, sch, key, rowid, vals):
        t = self.c.write_state(sch).wtable(key)
        rows = t.rows
        if type(rowid) is int and (not rows or (type(rows[-1][0]) is int and rows[-1][0] < rowid)):
            rows.append((rowid, vals))
            return
        if type(rowid) is int and all(type(r[0]) is int for r in rows):
            j = len(rows)
            while j > 0 and rows[j - 1][0] > rowid:
                j -= 1
            rows.insert(j, (rowid, vals))
            return
        rows.append((rowid, vals))

    def check_row(self, t, vals, orx):
        for i, c in enumerate(t.cols):
            if c.notnull and vals[i] is None:
                pol = orx or c.notnull
                if pol == "ignore":
                    raise _Ignore()
                if pol == "replace" and c.default is not None:
                    vals = list(vals)
                    vals[i] = apply_aff(self.ev(c.default, Scope([], None, None)), c.aff)
                    if vals[i] is not None:
                        continue
                raise IntegrityError("NOT NULL constraint failed: %s.%s" % (t.name, c.name))
        if t.checks:
            s = Source(t.name, [c.name for c in t.cols], [c.aff for c in t.cols], [c.type for c in t.cols])
            s.row = vals
            for ch in t.checks:
                p = self.pred(ch, Scope([s], None, None))
                if p is not None and not decide(p):
                    if orx == "ignore":
                        raise _Ignore()
                    raise IntegrityError("CHECK constraint failed: %s" % t.name)
        return vals

    def insert(self, st, outer, orx_over, defsch=None):
        _, ctes, orx, q, alias, cols, src, ups, ret = st
        sch, t0 = self.target(q, defsch)
        if orx_over:
            orx = orx_over
        key = t0.name.lower()
        if cols is None:
            tcols = list(range(len(t0.cols)))
        else:
            tcols = []
            for c in cols:
                i = t0.idx.get(c.lower())
                if i is None:
                    if c.lower() in ROWIDS:
                        i = -1
                    else:
                        raise OperationalError("table %s has no column named %s" % (t0.name, c))
                tcols.append(i)
        if src is None:
            rows = [()]
            tcols = []
        else:
            env = self.cte_env(ctes, outer)
            rows, names, _ = self.run_select(src, outer, ctes=env)
            if len(names) != len(tcols):
                if cols is None:
                    raise OperationalError(
                        "table %s has %d columns but %d values were supplied"
                        % (t0.name, len(tcols), len(names))
                    )
                raise OperationalError("%d values for %d columns" % (len(names), len(tcols)))
        returned = []
        self.c.write_state(sch)
        if not self.active_triggers:
            self.multi = (
                (src is not None and not (
                    len(src[2]) == 1 and src[2][0][1][0] == "values" and len(src[2][0][1][1]) == 1
                ))
                or orx == "replace"
                or any(self.triggers(sch, key, "insert", w) for w in ("before", "after"))
            )
        for row in rows:
            try:
                r = self.insert_row(sch, key, tcols, row, orx, ups, alias or t0.name, outer)
            except _Ignore:
                continue
            if r is not None and ret is not None:
                returned.append(r)
        if ret is not None:
            return self.returning(ret, t0, alias, returned, outer)
        return None

    def insert_row(self, sch, key, tcols, row, orx, ups, alias, outer):
        t = self.c.read_state(sch).tables[key]
        vals = [None] * len(t.cols)
        given = set()
        rowid = None
        for i, v in zip(tcols, row):
            if i == -1:
                rowid = v
            else:
                vals[i] = v
                given.add(i)
        for i, c in enumerate(t.cols):
            if i not in given and c.default is not None:
                vals[i] = self.ev(c.default, Scope([], None, None))
            vals[i] = apply_aff(vals[i], c.aff)
        rc = t.rowid_col
        if rc is not None:
            rowid = vals[rc] if rowid is None else apply_aff(rowid, "INTEGER")
        auto = rowid is None
        if not auto and type(rowid) not in (int, SymInt):
            raise IntegrityError("datatype mismatch")
        if not self.fire(sch, key, "insert", "before", None, (-1 if auto else rowid, tuple(vals)), t, orx):
            return None
        t = self.c.read_state(sch).tables[key]
        if auto:
            rowid = 1
            if t.rows:
                m = t.rows[0][0]
                for rid, _ in t.rows[1:]:
                    m = core.sym_max(m, rid)
                rowid = m + 1
            if t.autoinc:
                rowid = core.sym_max(rowid, getattr(t, "seq", 0) + 1)
        if rc is not None:
            vals[rc] = rowid
        vals = self.check_row(t, vals, orx if orx != "abort" else None)
        conf = self.conflicts(t, rowid, vals)
        if conf:
            for target, sets, w in ups:
                hit = self.ups_match(t, target, conf)
                if hit is not None:
                    if sets is None:
                        return None
                    return self.upsert(sch, key, hit, sets, w, vals, rowid, alias, outer)
            done = set()
            for label, policy, rid in conf:
                pol = orx if orx != "abort" else policy
                if pol == "ignore":
                    return None
                if pol == "replace":
                    if id(rid) in done or rid in [d for d in done if type(d) is int]:
                        continue
                    self.remove_row(sch, key, rid, fire=self.c.recursive_triggers)
                    done.add(rid if type(rid) is int else id(rid))
                else:
                    e = IntegrityError("UNIQUE constraint failed: %s" % label)
                    e.policy = pol
                    raise e
        self.fk_check(sch, key, None, tuple(vals), None)
        self.put_row(sch, key, rowid, tuple(vals))
        if t.autoinc:
            wt = self.c.write_state(sch).wtable(key)
            wt.seq = rowid
        self.changes += 1
        if not self.active_triggers:
            self.lastrowid = rowid
        self.fire(sch, key, "insert", "after", None, (rowid, tuple(vals)), t, orx)
        return (rowid, tuple(vals))

    def ups_match(self, t, target, conf):
        if target is None:
            return conf[0][2]
        names = set()
        for e in target:
            while e[0] == "collate":
                e = e[1]
            if e[0] != "colref":
                raise Unsupported("conflict target")
            names.add(e[2].lower())
        for label, _, rid in conf:
            cols = set(x.split(".")[-1].lower() for x in label.split(", "))
            if cols == names:
                return rid
        return None

    def upsert(self, sch, key, rid, sets, w, vals, rowid, alias, outer):
        t = self.c.read_state(sch).tables[key]
        old = next(v for r, v in t.rows if r is rid)
        s1 = Source(alias, [c.name for c in t.cols], [c.aff for c in t.cols], [c.type for c in t.cols])
        s1.row, s1.rowid = old, rid
        s2 = Source("excluded", [c.name for c in t.cols], [c.aff for c in t.cols], [c.type for c in t.cols])
        s2.row, s2.rowid = tuple(vals), rowid
        sc = Scope([s1, s2], outer, None)
        if w is not None and not decide(self.holds(w, sc)):
            return None
        return self.update_row(sch, key, rid, sets, sc, "xabort")

    def update_row(self, sch, key, rid, sets, sc, orx):
        t = self.c.read_state(sch).tables[key]
        old = None
        for r, v in t.rows:
            if r is rid:
                old = v
        if old is None:
            return None
        new = list(old)
        newid = rid
        updated = set()
        for cols, e in sets:
            if len(cols) == 1:
                vs = [norm(self.ev(e, sc))]
            else:
                vs, _ = self.evrow(e, sc)
                if len(vs) != len(cols):
                    raise OperationalError("%d columns assigned %d values" % (len(cols), len(vs)))
            for c, v in zip(cols, vs):
                i = t.idx.get(c.lower())
                updated.add(c.lower())
                if i is None:
                    if c.lower() in ROWIDS:
                        newid = v
                        continue
                    raise OperationalError("no such column: %s" % c)
                new[i] = apply_aff(norm(v), t.cols[i].aff)
                if i == t.rowid_col:
                    newid = new[i]
        if newid is None or type(newid) not in (int, SymInt):
            raise IntegrityError("datatype mismatch")
        if not self.fire(sch, key, "update", "before", (rid, old), (newid, tuple(new)), t, orx, updated):
            return None
        t = self.c.read_state(sch).tables[key]
        if not any(r is rid for r, _ in t.rows):
            return None
        trig_orx = orx
        if orx == "xabort":
            orx = "abort"
        new = list(self.check_row(t, new, orx if orx != "abort" else None))
        conf = self.conflicts(t, newid, new, skip=(rid,))
        for label, policy, other in conf:
            pol = orx if orx != "abort" else policy
            if pol == "ignore":
                return None
            if pol == "replace":
                self.remove_row(sch, key, other, fire=self.c.recursive_triggers)
            else:
                raise IntegrityError("UNIQUE constraint failed: %s" % label)
        mod = {t.idx[c] for c in updated if c in t.idx}
        self.fk_check(sch, key, old, None, mod)
        wt = self.c.write_state(sch).wtable(key)
        for j, (r, v) in enumerate(wt.rows):
            if r is rid:
                if newid is rid:
                    wt.rows[j] = (rid, tuple(new))
                else:
                    del wt.rows[j]
                    self.put_row(sch, key, newid, tuple(new))
                break
        self.fk_check(sch, key, None, tuple(new), mod)
        self.changes += 1
        self.fk_parent_changed(sch, key, t, old, tuple(new), rid, newid)
        self.fire(sch, key, "update", "after", (rid, old), (newid, tuple(new)), t, trig_orx, updated)
        return (newid, tuple(new))

    def update(self, st, outer, orx_over, defsch=None):
        _, ctes, orx, q, alias, sets, frm, w, ret = st
        sch, t0 = self.target(q, defsch)
        if orx_over:
            orx = orx_over
        key = t0.name.lower()
        for cols, _ in sets:
            for c in cols:
                if c.lower() not in t0.idx and c.lower() not in ROWIDS:
                    raise OperationalError("no such column: %s" % c)
        env = self.cte_env(ctes, outer)
        base = [("first", ("table", (sch, t0.name), alias), None, None)]
        full = base + ([("inner",) + f[1:] if f[0] == "first" else f for f in frm] if frm else [])
        s, combos = self.from_rows(full, outer, env, w)
        self.c.write_state(sch)
        seen = []
        returned = []
        hits = [(vals) for g, vals in combos if g is True or decide(g)]
        for vals in hits:
            rid = vals[0][1]
            if any(r is rid for r in seen):
                continue
            seen.append(rid)
            t = self.c.read_state(sch).tables[key]
            cur = None
            for r, v in t.rows:
                if r is rid:
                    cur = v
            if cur is None:
                continue
            for src, (r, ri) in zip(s.sources, vals):
                src.row, src.rowid = r, ri
            s.sources[0].row = cur
            try:
                r = self.update_row(sch, key, rid, sets, s, orx)
            except _Ignore:
                continue
            if r is not None:
                returned.append(r)
        if ret is not None:
            return self.returning(ret, t0, alias, returned, outer)
        return None

    def delete(self, st, outer, defsch=None):
        _, ctes, q, alias, w, ret = st
        sch, t0 = self.target(q, defsch)
        key = t0.name.lower()
        env = self.cte_env(ctes, outer)
        s, combos = self.from_rows(
            [("first", ("table", (sch, t0.name), alias), None, None)], outer, env, w
        )
        wst = self.c.write_state(sch)
        if w is None and not (
            (self.c.foreign_keys and (t0.fks or any(f[1].lower() == key for t in wst.tables.values() for f in t.fks)))
            or any(self.triggers(sch, key, "delete", x) for x in ("before", "after"))
        ):
            wst.wtable(key)  # truncation writes even to an empty table
        returned = []
        for vals in [v for g, v in combos if g is True or decide(g)]:
            rid = vals[0][1]
            try:
                old = self.remove_row(sch, key, rid, fire=True)
            except _Ignore:
                continue
            if old is not None:
                self.changes += 1
                returned.append((rid, old))
        if ret is not None:
            return self.returning(ret, t0, alias, returned, outer)
        return None

    def returning(self, ret, t, alias, rows, outer):
        s = Source(alias or t.name, [c.name for c in t.cols], [c.aff for c in t.cols], [c.type for c in t.cols], None, "main")
        sc = Scope([s], outer, None)
        out = []
        names = []
        infos = []
        for c in ret:
            if c[0] == "star":
                names += s.cols
                infos += [(a, None, d) for a, d in zip(s.affs, s.decls)]
            else:
                names.append(c[2] or (c[1][2] if c[1][0] == "colref" else c[3]))
                infos.append(self.colinfo(c[1], sc))
        for rid, vals in rows:
            s.row, s.rowid = vals, rid
            r = []
            for c in ret:
                if c[0] == "star":
                    r += list(vals)
                else:
                    r.append(norm(self.ev(c[1], sc)))
            out.append(tuple(r))
        return out, names, infos

    def remove_row(self, sch, key, rid, fire):
        t = self.c.read_state(sch).tables[key]
        old = None
        for r, v in t.rows:
            if r is rid:
                old = v
        if old is None:
            return None
        if fire:
            if not self.fire(sch, key, "delete", "before", (rid, old), None, t, "abort"):
                return None
        self.fk_check(sch, key, old, None, None)
        wt = self.c.write_state(sch).wtable(key)
        for j, (r, v) in enumerate(wt.rows):
            if r is rid:
                del wt.rows[j]
                break
        else:
            return None
        self.fk_parent_changed(sch, key, t, old, None, rid, None)
        if fire:
            self.fire(sch, key, "delete", "after", (rid, old), None, t, "abort")
        return old

    # -- foreign keys
    def parent_cols(self, pt, pcols):
        if pcols is not None:
            return [pt.idx[c.lower()] for c in pcols]
        if pt.rowid_col is not None:
            return [pt.rowid_col]
        for cols, _, label, *_ in pt.uniques:
            if cols != "rowid" and getattr(pt, "pk", None) == cols:
                return list(cols)
        return None

    def fk_parent_changed(self, sch, key, t, old, new, rid, newid):
        if not self.c.foreign_keys:
            return
        st = self.c.read_state(sch)
        # SQLite runs the actions of the most recently declared constraint first
        for ck in reversed(list(st.tables)):
            child = st.tables[ck]
            for fk in reversed(child.fks):
                if fk[1].lower() != key:
                    continue
                pc = self.parent_cols(t, fk[2])
                if pc is None:
                    continue
                okey = [old[i] for i in pc]
                if any(v is None for v in okey):
                    continue
                if new is not None:
                    same = True
                    for i in pc:
                        same = tand(same, v_same(old[i], new[i]))
                    if same is True or (same is not False and decide(same)):
                        continue
                act = fk[3]["delete" if new is None else "update"]
                cur = self.c.read_state(sch).tables.get(ck)
                if act == "no action":
                    continue
                if act == "restrict":
                    if self.children(cur, fk, okey):
                        raise IntegrityError("FOREIGN KEY constraint failed")
                    continue
                for crid in self.children(cur, fk, okey):
                    if act == "cascade" and new is None:
                        self.remove_row(sch, ck, crid, fire=True)
                    else:
                        if act == "cascade":
                            vals = [new[i] for i in pc]
                        else:
                            vals = [None] * len(pc)
                        sets = [
                            ([child.cols[i].name], ("lit", v)) for i, v in zip(fk[0], vals)
                        ]
                        self.update_row(sch, ck, crid, sets, Scope([], None, None), "abort")

    def children(self, child, fk, okey):
        out = []
        at, first = fk[0][0], okey[0]
        known = type(first) is int
        for crid, cv in child.rows:
            if known and type(cv[at]) is int and cv[at] != first:
                continue
            e = True
            for i, v in zip(fk[0], okey):
                if cv[i] is None:
                    e = False
                    break
                e = tand(e, v_eq(cv[i], v))
            if e is True or (e is not False and decide(e)):
                out.append(crid)
        return out

    def fk_check(self, sch, key, old, new, mod):
        """Follows sqlite3FkCheck: `old` is about to go or `new` to come."""
        if not self.c.foreign_keys:
            return
        st = self.c.read_state(sch, touch=False)
        t = st.tables[key]
        for fk in reversed(t.fks):
            if mod is not None and not (mod & set(fk[0])) and fk[1].lower() != key:
                continue
            row = old if old is not None else new
            vals = [row[i] for i in fk[0]]
            pt = st.tables.get(fk[1].lower())
            if pt is None:
                raise OperationalError("no such table: %s.%s" % (sch, fk[1]))
            pc = self.parent_cols(pt, fk[2])
            if pc is None or not self.fk_target_ok(st, pt, pc):
                raise OperationalError(
                    'foreign key mismatch - "%s" referencing "%s"' % (t.name, pt.name)
                )
            if any(v is None for v in vals):
                continue
            if old is not None:
                if self.fk_count != 0 and not self.parent_exists(pt, pc, vals):
                    self.fk_count -= 1
                continue
            if pt is t:  # a row may reference itself
                e = True
                for i, v in zip(pc, vals):
                    e = False if new[i] is None else tand(e, v_eq(new[i], v))
                if e is not False and decide(e):
                    continue
            if not self.parent_exists(pt, pc, vals):
                if not self.multi:
                    raise IntegrityError("FOREIGN KEY constraint failed")
                self.fk_count += 1
        if not self.multi and old is None:
            return
        for child in st.tables.values():
            for fk in child.fks:
                if fk[1].lower() != key:
                    continue
                pc = self.parent_cols(t, fk[2])
                if pc is None:
                    continue
                if mod is not None:
                    if not (mod & set(pc)) and not (t.rowid_col in pc and t.rowid_col in mod):
                        continue
                row = old if old is not None else new
                okey = [row[i] for i in pc]
                if any(v is None for v in okey):
                    continue
                if old is None and self.fk_count == 0:
                    continue
                n = len(self.children(child, fk, okey))
                self.fk_count += n if old is not None else -n

    def fk_done(self):
        if self.fk_count > 0:
            raise IntegrityError("FOREIGN KEY constraint failed")

    def fk_target_ok(self, st, pt, pc):
        if pt.rowid_col is not None and pc == [pt.rowid_col]:
            return True
        for cols, *_ in pt.uniques:
            if cols != "rowid" and sorted(cols) == sorted(pc):
                return True
        for i in st.indexes.values():
            if i["table"].lower() == pt.name.lower() and i["unique"] and i["cols"] and sorted(i["cols"]) == sorted(pc):
                return True
        return False

    def parent_exists(self, pt, pc, vals):
        any_ = False
        at, first = pc[0], vals[0]
        known = type(first) is int and pt.cols[at].aff == "INTEGER"
        for _, pv in pt.rows:
            if known and type(pv[at]) is int and pv[at] != first:
                continue
            e = True
            for i, v in zip(pc, vals):
                if pv[i] is None:
                    e = False
                    break
                e = tand(e, v_eq(pv[i], apply_aff(v, pt.cols[i].aff)))
            any_ = tor(any_, e)
            if any_ is True:
                return True
        return any_ is not False and decide(any_)


# ---------------------------------------------------------------- python API
PARSE_DECLTYPES = 1
PARSE_COLNAMES = 2
SQLITE_OK = 0
sqlite_version = "3.45.1"
sqlite_version_info = (3, 45, 1)
version = "2.6.0"
apilevel = "2.0"
paramstyle = "qmark"
threadsafety = 3
LEGACY_TRANSACTION_CONTROL = -1

adapters = {}
converters = {}


def register_adapter(t, f):
    adapters[t] = f


def register_converter(name, f):
    converters[name.upper()] = f


register_adapter(_dt.date, lambda v: v.isoformat())
register_adapter(_dt.datetime, lambda v: v.isoformat(" "))


def adapt_value(v, idx):
    t = type(v)
    if v is None or t in (int, float, str, bytes, bytearray, SymInt, SymReal, SymVal, Blob, memoryview):
        if t is int and not (-(2**63) <= v < 2**63):
            raise OverflowError("Python int too large to convert to SQLite INTEGER")
        if t is float and v != v:
            return None
        return v
    if t is bool:
        return int(v)
    if t is SymBool:
        return v._int()
    f = adapters.get(t)
    if f is not None:
        return adapt_value_plain(f(v), idx)
    if hasattr(t, "_sx_sql"):
        return v._sx_sql()
    conform = getattr(t, "__conform__", None)
    if conform is not None:
        return adapt_value_plain(v.__conform__(None), idx)
    if isinstance(v, str):
        return str.__str__(v)
    if isinstance(v, int):
        return int(v)
    if isinstance(v, float):
        return float(v)
    raise ProgrammingError("Error binding parameter %d: type '%s' is not supported" % (idx, t.__name__))


def adapt_value_plain(v, idx):
    t = type(v)
    if v is None or isinstance(v, (int, float, str, bytes)) or t in (SymInt, SymReal, SymVal, Blob):
        return int(v) if t is bool else v
    raise ProgrammingError("Error binding parameter %d: type '%s' is not supported" % (idx, t.__name__))


class Row:
    def __init__(self, cursor, data):
        self._n = [d[0] for d in cursor.description]
        self._d = tuple(data)

    def keys(self):
        return list(self._n)

    def __getitem__(self, k):
        if isinstance(k, str):
            for n, v in zip(self._n, self._d):
                if n.lower() == k.lower():
                    return v
            raise IndexError("No item with that key")
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __eq__(self, o):
        return isinstance(o, Row) and self._n == o._n and self._d == o._d

    def __hash__(self):
        return hash(self._d)


class Cursor:
    arraysize = 1

    def __init__(self, conn):
        self.connection = conn
        self.description = None
        self.rowcount = -1
        self.lastrowid = None
        self._rows = None
        self.row_factory = conn.row_factory
        self._closed = False

    def execute(self, sql, params=()):
        self.connection._check_open()
        self.connection._run(self, sql, params)
        return self

    def executemany(self, sql, seq):
        self.connection._check_open()
        total = 0
        first = True
        for p in seq:
            self.connection._run(self, sql, p, many=True, first=first)
            first = False
            if self.rowcount > 0:
                total += self.rowcount
            self._rows = None
        if first:
            w = parse_or_raise(sql)
            self.connection._fault("executemany", sql)
        self.rowcount = total
        self.description = None
        return self

    def executescript(self, sql):
        c = self.connection
        c._check_open()
        if c.in_transaction:
            c._commit()
        c._fault("executescript", sql)
        for st in parse_or_raise(sql):
            c._exec_stmt(self, st, ())
        return self

    def _convert(self, row):
        c = self.connection
        out = []
        for v, info in zip(row, self._infos):
            v = norm(v)
            if v is not None and c.detect_types & PARSE_DECLTYPES and info[2]:
                ty = re.split(r"[\s(]", info[2])[0].upper()
                f = converters.get(ty)
                if f is not None:
                    if isinstance(v, str):
                        v = v.encode()
                    elif not isinstance(v, bytes):
                        v = totext(v).encode()
                    v = f(v)
                    out.append(v)
                    continue
            if isinstance(v, str) and type(v) is not SymVal and c.text_factory is not str:
                v = c.text_factory(v.encode())
            out.append(v)
        row = tuple(out)
        rf = self.row_factory
        if rf is not None:
            return rf(self, row)
        return row

    def __iter__(self):
        return self

    def __next__(self):
        r = self.fetchone()
        if r is None:
            raise StopIteration
        return r

    def fetchone(self):
        self.connection._check_open()
        if not self._rows:
            return None
        return self._convert(self._rows.pop(0))

    def fetchmany(self, size=None):
        out = []
        for _ in range(size or self.arraysize):
            r = self.fetchone()
            if r is None:
                break
            out.append(r)
        return out

    def fetchall(self):
        out = []
        while True:
            r = self.fetchone()
            if r is None:
                return out
            out.append(r)

    def close(self):
        self._rows = None


def parse_or_raise(sql):
    try:
        return parse(sql)
    except SqlSyntax as e:
        raise OperationalError(str(e)) from None


class Connection:
    def __init__(
        self,
        database,
        timeout=5.0,
        detect_types=0,
        isolation_level="",
        check_same_thread=True,
        factory=None,
        cached_statements=128,
        uri=False,
        autocommit=LEGACY_TRANSACTION_CONTROL,
    ):
        if not isinstance(database, (str, bytes)) or type(database) is SymVal:
            database = os.fspath(database)
        if isinstance(database, bytes):
            database = os.fsdecode(database)
        path = str(database)
        mode = None
        self.readonly = False
        if uri and path.startswith("file:"):
            path = path[5:]
            if "#" in path:
                path = path.split("#", 1)[0]
            if "?" in path:
                path, q = path.split("?", 1)
                for kv in q.split("&"):
                    if kv.startswith("mode="):
                        mode = kv[5:]
            path = unquote(path)
            if path.startswith("//"):
                path = "/" + path[2:].split("/", 1)[1]
        if path in (":memory:", "") or mode == "memory":
            _world.mem += 1
            path = ":memory:%d" % _world.mem
        else:
            path = os.path.abspath(path)
        f = _world.open(path, create=mode not in ("ro", "rw"))
        self.readonly = mode == "ro"
        self.path = path
        self.atts = {"main": Att(f)}
        self.savepoints = []
        self.in_transaction = False
        self.implicit = False
        self.row_factory = None
        self.text_factory = str
        self.detect_types = detect_types
        self.isolation_level = isolation_level
        self.aggregates = {}
        self.functions = {}
        self.foreign_keys = False
        self.recursive_triggers = False
        self.pragmas = {}
        self.closed = False
        self.last_changes = 0
        self.total_changes = 0
        self.last_rowid = 0
        _world.connections.append(self)

    # -- API
    def _check_open(self):
        if self.closed:
            raise ProgrammingError("Cannot operate on a closed database.")

    def cursor(self, factory=None):
        self._check_open()
        return Cursor(self)

    def execute(self, sql, params=()):
        return self.cursor().execute(sql, params)

    def executemany(self, sql, seq):
        return self.cursor().executemany(sql, seq)

    def executescript(self, sql):
        return self.cursor().executescript(sql)

    def create_aggregate(self, name, n, cls):
        if cls is None:
            self.aggregates.pop((name.lower(), n), None)
        else:
            self.aggregates[(name.lower(), n)] = cls

    def create_function(self, name, n, f, deterministic=False):
        self.functions[(name.lower(), n)] = f

    def create_collation(self, *a):
        raise Unsupported("collation")

    def set_trace_callback(self, f):
        pass

    def set_progress_handler(self, *a):
        pass

    def set_authorizer(self, *a):
        pass

    def interrupt(self):
        pass

    def commit(self):
        self._check_open()
        if self.in_transaction:
            self._fault("commit", "commit")
            self._commit()

    def rollback(self):
        self._check_open()
        if self.in_transaction:
            self._rollback()

    def close(self):
        if self.closed:
            return
        if self.in_transaction:
            self._rollback()
        self.closed = True

    def __enter__(self):
        self._check_open()
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            self.commit()
        else:
            self.rollback()
        return False

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle 'sqlite3.Connection' object")

    __reduce__ = __deepcopy__ if False else (lambda self: (_ for _ in ()).throw(TypeError("cannot pickle 'sqlite3.Connection' object")))

    def backup(self, target, **kw):
        raise Unsupported("backup")

    def iterdump(self):
        raise Unsupported("iterdump")

    # -- transactions
    def _fault(self, kind, sql):
        h = _world.hook
        if h is not None:
            h(kind, sql, self)

    def att(self, sch):
        a = self.atts.get(sch)
        if a is None:
            if sch == "temp":
                a = Att(DBFile(":temp:"))
                self.atts["temp"] = a
                return a
            raise OperationalError("unknown database %s" % sch)
        if a.file.bad:
            raise DatabaseError("file is not a database")
        return a

    def read_state(self, sch, touch=True):
        a = self.att(sch)
        if a.work is None:
            a.work = a.file.state
            a.snap = a.file.version
            a.dirty = False
        return a.work

    def write_state(self, sch):
        a = self.att(sch)
        self.read_state(sch)
        if not a.dirty:
            if self.readonly and sch == "main":
                raise OperationalError("attempt to write a readonly database")
            if a.file.writer is not None and a.file.writer is not self:
                raise OperationalError("database is locked")
            if a.snap != a.file.version:
                raise OperationalError("database is locked")
            a.file.writer = self
            a.work = a.file.state.copy()
            a.dirty = True
        if self._stmt and a.backup is None:
            a.backup = a.work.copy()
        return a.work

    _stmt = False

    def _commit(self):
        for a in self.atts.values():
            if a.dirty:
                a.work.own = set()
                if not a.file.state.same(a.work):
                    a.file.state = a.work
                    a.file.version += 1
                a.file.writer = None
            a.work = None
            a.dirty = False
        self.in_transaction = False
        self.savepoints = []

    def _rollback(self):
        for a in self.atts.values():
            if a.dirty:
                a.file.writer = None
            a.work = None
            a.dirty = False
        self.in_transaction = False
        self.savepoints = []

    def find_table(self, schema, name):
        nl = name.lower()
        if schema is not None:
            s = schema.lower()
            if s not in self.atts and s != "temp":
                return None
            t = self.read_state(s).tables.get(nl)
            return (s, t) if t is not None else None
        order = (["temp"] if "temp" in self.atts else []) + [a for a in self.atts if a != "temp"]
        for s in order:
            t = self.read_state(s).tables.get(nl)
            if t is not None:
                return s, t
        return None

    def find_view(self, schema, name):
        for s in [schema.lower()] if schema else list(self.atts):
            v = self.read_state(s).views.get(name.lower())
            if v is not None:
                return v
        return None

    # -- execution
    def _run(self, cur, sql, params, many=False, first=True):
        if not isinstance(sql, str):
            raise TypeError("execute() argument 1 must be str, not %s" % type(sql).__name__)
        if many:
            if first:
                self._fault("executemany", sql)
        else:
            self._fault("execute", sql)
        stmts = parse_or_raise(sql)
        if len(stmts) > 1:
            raise ProgrammingError("You can only execute one statement at a time.")
        if not stmts:
            cur._rows = []
            cur.description = None
            return
        self._exec_stmt(cur, stmts[0], params, many)

    def _bind(self, st, params):
        _, n, names, _ = st
        if isinstance(params, dict) or (hasattr(params, "keys") and not isinstance(params, (list, tuple))):
            out = [None] * n
            inv = {v: k for k, v in names.items()}
            for i in range(n):
                k = inv.get(i + 1)
                if k is None:
                    raise ProgrammingError(
                        "Binding %d has no name, but you supplied a dictionary (which has only names)." % (i + 1)
                    )
                # exact dictionaries are looked into, others are asked
                try:
                    x = params[k[1:]]
                except LookupError:
                    raise ProgrammingError("You did not supply a value for binding parameter %s." % k)
                out[i] = adapt_value(x, i + 1)
            return out
        if not hasattr(params, "__len__") or not hasattr(params, "__getitem__"):
            raise ProgrammingError("parameters are of unsupported type")
        if type(params) is SymVal:
            raise Unsupported("text as parameters")
        p = list(params)
        if len(p) != n:
            raise ProgrammingError(
                "Incorrect number of bindings supplied. The current statement uses %d, and there are %d supplied."
                % (n, len(p))
            )
        return [adapt_value(v, i + 1) for i, v in enumerate(p)]

    def _exec_stmt(self, cur, st, params, many=False):
        ast = st[0]
        kind = ast[0]
        vals = self._bind(st, params)
        if many and kind == "select":
            raise ProgrammingError("executemany() can only execute DML statements.")
        cur._rows = []
        cur._infos = []
        cur.description = None
        cur.rowcount = -1
        if kind in ("begin", "commit", "rollback", "savepoint", "release", "rollback_to", "attach", "detach", "pragma"):
            r = self._control(ast, vals)
            if r is not None:
                rows, names = r
                cur._rows = [tuple(x) for x in rows]
                cur._infos = [(None, None, None)] * len(names)
                cur.description = tuple((n,) + (None,) * 6 for n in names) if names else None
            return
        if (
            kind in ("insert", "update", "delete")
            and self.isolation_level is not None
            and not self.in_transaction
        ):
            self.in_transaction = True
            self.implicit = True
        auto = not self.in_transaction
        self._stmt = True
        ex = Exec(self, vals)
        try:
            r = self._do(ex, ast, st)
            if kind != "select":
                ex.fk_done()
        except core.EngineSignal:
            raise
        except BaseException as e:
            for a in self.atts.values():
                if a.backup is not None:
                    a.work = a.backup
                    a.backup = None
            self._stmt = False
            if auto or getattr(e, "policy", None) == "rollback":
                self._rollback()
            if isinstance(e, _Ignore):
                return
            raise
        for a in self.atts.values():
            a.backup = None
        self._stmt = False
        if auto:
            self._commit()
        if kind in ("insert", "update", "delete"):
            cur.rowcount = ex.changes
            self.last_changes = ex.changes
            self.total_changes += ex.changes
            if ex.lastrowid is not None:
                self.last_rowid = ex.lastrowid
            cur.lastrowid = self.last_rowid
        if r is not None:
            rows, names, infos = r
            cur._rows = list(rows)
            cur._infos = infos
            cur.description = tuple((n,) + (None,) * 6 for n in names)

    def _do(self, ex, ast, st):
        kind = ast[0]
        if kind == "select":
            return ex.run_select(ast[1], None)
        if kind == "insert":
            return ex.insert(ast, None, None)
        if kind == "update":
            return ex.update(ast, None, None)
        if kind == "delete":
            return ex.delete(ast, None)
        return self._ddl(ex, ast, st)

    def _control(self, ast, vals):
        kind = ast[0]
        if kind == "begin":
            if self.in_transaction:
                raise OperationalError("cannot start a transaction within a transaction")
            if self.atts["main"].file.bad:
                raise DatabaseError("file is not a database")
            self.in_transaction = True
            if ast[1] != "deferred":
                try:
                    self.write_state("main")
                except BaseException:
                    self._rollback()
                    raise
            return None
        if kind == "commit":
            if not self.in_transaction:
                raise OperationalError("cannot commit - no transaction is active")
            self._commit()
            return None
        if kind == "rollback":
            if not self.in_transaction:
                raise OperationalError("cannot rollback - no transaction is active")
            self._rollback()
            return None
        if kind == "savepoint":
            outer = not self.in_transaction
            self.in_transaction = True
            snap = {}
            for k, a in self.atts.items():
                snap[k] = (a.work.copy() if a.dirty else a.work, a.dirty, a.snap)
            self.savepoints.append((ast[1].lower(), snap, outer))
            return None
        if kind in ("release", "rollback_to"):
            n = ast[1].lower()
            for j in range(len(self.savepoints) - 1, -1, -1):
                if self.savepoints[j][0] == n:
                    break
            else:
                raise OperationalError("no such savepoint: %s" % ast[1])
            _, snap, outer = self.savepoints[j]
            if kind == "release":
                if outer and j == 0:
                    self._commit()
                else:
                    del self.savepoints[j:]
            else:
                del self.savepoints[j + 1 :]
                for k, a in self.atts.items():
                    if k in snap:
                        w, dirty, sv = snap[k]
                        if dirty:
                            a.work = w.copy()
                        elif a.dirty:
                            # keeps the write lock, content as committed
                            a.work = a.file.state.copy() if w is None else w.copy()
                        # otherwise nothing was written
                    elif a.dirty:
                        a.work = a.file.state.copy()
            return None
        if kind == "attach":
            ex = Exec(self, vals)
            path = ex.ev(ast[1], Scope([], None, None))
            name = ex.ev(ast[2], Scope([], None, None)).lower()
            if name in self.atts or name in ("main", "temp"):
                raise OperationalError("database %s is already in use" % name)
            if path in (":memory:", ""):
                _world.mem += 1
                path = ":memory:%d" % _world.mem
            else:
                path = os.path.abspath(path)
            self.atts[name] = Att(_world.open(path))
            return None
        if kind == "detach":
            ex = Exec(self, vals)
            name = ex.ev(ast[1], Scope([], None, None)).lower()
            if name not in self.atts or name in ("main", "temp"):
                raise OperationalError("no such database: %s" % name)
            a = self.atts[name]
            if self.in_transaction and a.work is not None:
                raise OperationalError("database %s is locked" % name)
            del self.atts[name]
            return None
        if kind == "pragma":
            return self.pragma(ast[1], ast[2], ast[3])

    def pragma(self, sch, name, v):
        sch = (sch or "main").lower()

        def onoff(x):
            return x in (1, True) or (isinstance(x, str) and x.lower() in ("on", "yes", "true", "1"))

        auto = not self.in_transaction
        try:
            if name in ("user_version", "application_id"):
                if v is None:
                    return [(getattr(self.read_state(sch), name),)], [name]
                setattr(self.write_state(sch), name, int(v))
                if auto:
                    self._commit()
                return [], []
            if name == "foreign_keys":
                if v is None:
                    return [(int(self.foreign_keys),)], [name]
                if not self.in_transaction:
                    self.foreign_keys = onoff(v)
                return [], []
            if name == "recursive_triggers":
                if v is None:
                    return [(int(self.recursive_triggers),)], [name]
                self.recursive_triggers = onoff(v)
                return [], []
            if name == "journal_mode":
                f = self.att(sch).file
                if v is not None:
                    if str(v).lower() == "wal" and not self.readonly:
                        if self.in_transaction and not f.wal:
                            raise OperationalError("cannot change into wal mode from within a transaction")
                        f.wal = True
                    elif str(v).lower() != "wal":
                        f.wal = False
                mem = f.path.startswith(":")
                return [("memory" if mem else "wal" if f.wal else "delete",)], [name]
            if name in ("table_info", "table_xinfo"):
                r = self.find_table(None if sch == "main" else sch, str(v))
                rows = []
                if r is not None:
                    t = r[1]
                    pk = [t.rowid_col] if t.rowid_col is not None else list(getattr(t, "pk", ()) or ())
                    for i, c in enumerate(t.cols):
                        rows.append((i, c.name, c.type, int(bool(c.notnull)), None, pk.index(i) + 1 if i in pk else 0))
                return rows, ["cid", "name", "type", "notnull", "dflt_value", "pk"]
            if name == "integrity_check" or name == "quick_check":
                return [("ok",)], [name]
            if name == "foreign_key_check":
                out = []
                st = self.read_state(sch)
                ex = Exec(self, [])
                for k, t in st.tables.items():
                    for n, fk in enumerate(t.fks):
                        pt = st.tables.get(fk[1].lower())
                        for rid, row in t.rows:
                            vals = [row[i] for i in fk[0]]
                            if any(x is None for x in vals):
                                continue
                            if pt is None or not ex.parent_exists(pt, ex.parent_cols(pt, fk[2]), vals):
                                out.append((t.name, rid, fk[1], n))
                return out, ["table", "rowid", "parent", "fkid"]
            if name == "database_list":
                return [(i, k, a.file.path) for i, (k, a) in enumerate(self.atts.items())], ["seq", "name", "file"]
            if name in ("index_list", "index_info", "foreign_key_list", "table_list", "compile_options"):
                raise Unsupported("pragma %s" % name)
            if self.att(sch).file.bad:
                raise DatabaseError("file is not a database")
            if v is None:
                if name in self.pragmas:
                    return [(self.pragmas[name],)], [name]
                dflt = {"synchronous": 2, "cache_size": -2000, "temp_store": 0, "page_size": 4096, "busy_timeout": 5000, "data_version": self.att(sch).file.version + 1}
                if name in dflt:
                    return [(dflt[name],)], [name]
                return [], []
            self.pragmas[name] = v
            return [], []
        finally:
            if auto and self.in_transaction is False:
                for a in self.atts.values():
                    if not a.dirty:
                        a.work = None

    # -- DDL
    def _ddl(self, ex, ast, st):
        kind = ast[0]
        sqltext = st[3].strip()
        if kind == "noop":
            return None
        if kind in ("create_table", "create_as"):
            if kind == "create_table":
                _, temp, ine, q, cols, cons, wo = ast
            else:
                _, temp, ine, q, sel = ast
            sch = "temp" if temp else (q[0] or "main").lower()
            state = self.read_state(sch)
            key = q[1].lower()
            if key in state.tables or key in state.views:
                if ine:
                    return None
                raise OperationalError("table %s already exists" % q[1])
            t = Table(q[1])
            t.sql = sqltext
            if kind == "create_as":
                rows, names, infos = ex.run_select(sel, None)
                for n in names:
                    t.idx[n.lower()] = len(t.cols)
                    t.cols.append(Col(n, ""))
                t.rows = [(i + 1, tuple(r)) for i, r in enumerate(rows)]
            else:
                self._build(t, cols, cons)
            state = self.write_state(sch)
            state.tables[key] = t
            state.own.add(key)
            state.order.append(("table", key))
            return None
        if kind == "create_index":
            _, unique, ine, q, tname, cols, where = ast
            r = self.find_table(q[0], tname)
            if r is None:
                raise OperationalError("no such table: %s" % ("main." + tname if q[0] is None else "%s.%s" % (q[0], tname)))
            sch, t = r
            state = self.read_state(sch)
            key = q[1].lower()
            if key in state.indexes:
                if ine:
                    return None
                raise OperationalError("index %s already exists" % q[1])
            idxs = []
            for e in cols:
                while e[0] == "collate":
                    e = e[1]
                if e[0] == "colref":
                    i = t.idx.get(e[2].lower())
                    if i is None:
                        raise OperationalError("no such column: %s" % e[2])
                    idxs.append(i)
                else:
                    idxs = None
                    break
            state = self.write_state(sch)
            if unique:
                if where is not None or idxs is None:
                    raise Unsupported("partial or expression unique index")
                wt = state.wtable(t.name.lower())
                wt = wt.schema_clone()
                label = ", ".join("%s.%s" % (t.name, t.cols[i].name) for i in idxs)
                rows = wt.rows
                wt.rows = []
                wt.uniques = wt.uniques + [(tuple(idxs), "abort", label, True)]
                for rid, v in rows:
                    if ex.conflicts(wt, rid, v):
                        raise IntegrityError("UNIQUE constraint failed: %s" % label)
                    wt.rows.append((rid, v))
                state.tables[t.name.lower()] = wt
                state.own.add(t.name.lower())
            state.indexes[key] = {"name": q[1], "table": t.name, "cols": idxs, "unique": unique, "sql": sqltext}
            state.order.append(("index", key))
            return None
        if kind == "create_trigger":
            _, temp, ine, q, when, ev, of, tname, cond, body = ast
            r = self.find_table(q[0], tname)
            if r is None:
                raise OperationalError("no such table: main.%s" % tname)
            sch = "temp" if temp else r[0]
            state = self.read_state(sch)
            key = q[1].lower()
            if key in state.triggers:
                if ine:
                    return None
                raise OperationalError("trigger %s already exists" % q[1])
            state = self.write_state(sch)
            state.triggers[key] = {
                "name": q[1],
                "when": when,
                "event": ev,
                "of": of,
                "table": tname,
                "cond": cond,
                "body": body,
                "sql": sqltext,
            }
            state.order.append(("trigger", key))
            return None
        if kind == "create_view":
            _, temp, ine, q, cols, sel = ast
            sch = "temp" if temp else (q[0] or "main").lower()
            state = self.write_state(sch)
            key = q[1].lower()
            if key in state.views or key in state.tables:
                if ine:
                    return None
                raise OperationalError("view %s already exists" % q[1])
            state.views[key] = {"name": q[1], "cols": cols, "select": sel, "sql": sqltext}
            state.order.append(("view", key))
            return None
        if kind == "drop":
            _, what, ife, q = ast
            attr = {"table": "tables", "index": "indexes", "trigger": "triggers", "view": "views"}[what]
            key = q[1].lower()
            if q[0]:
                schs = [q[0].lower()]
            else:
                schs = (["temp"] if "temp" in self.atts else []) + [a for a in self.atts if a != "temp"]
            for sch in schs:
                state = self.read_state(sch)
                if key in getattr(state, attr):
                    state = self.write_state(sch)
                    if what == "table":
                        t = state.tables[key]
                        if self.foreign_keys:
                            # an implicit delete of all rows comes first
                            for rid, _ in list(t.rows):
                                ex.remove_row(sch, key, rid, fire=False)
                            state = self.write_state(sch)
                        for n in [n for n, i in state.indexes.items() if i["table"].lower() == key]:
                            del state.indexes[n]
                            state.order.remove(("index", n))
                        for n in [n for n, i in state.triggers.items() if i["table"].lower() == key]:
                            del state.triggers[n]
                            state.order.remove(("trigger", n))
                    if what == "index":
                        i = state.indexes[key]
                        if i["unique"]:
                            wt = state.wtable(i["table"].lower()).schema_clone()
                            wt.uniques = [u for u in wt.uniques if u[0] != tuple(i["cols"])]
                            state.tables[i["table"].lower()] = wt
                    del getattr(state, attr)[key]
                    state.order.remove((what, key))
                    return None
            if ife:
                return None
            raise OperationalError("no such %s: %s" % (what, q[1]))
        if kind.startswith("alter"):
            r = self.find_table(*ast[1])
            if r is None:
                raise OperationalError("no such table: %s" % ast[1][1])
            sch, t = r
            state = self.write_state(sch)
            key = t.name.lower()
            t = state.wtable(key).schema_clone()
            state.tables[key] = t
            state.own.add(key)
            if kind == "alter_add":
                d = ast[2]
                if d["name"].lower() in t.idx:
                    raise OperationalError("duplicate column name: %s" % d["name"])
                if d.get("pk") or d.get("unique"):
                    raise OperationalError("Cannot add a UNIQUE column")
                c = Col(d["name"], d["type"], d.get("notnull"), d.get("default"), d.get("collate"))
                dv = None
                if c.default is not None:
                    dv = apply_aff(ex.ev(c.default, Scope([], None, None)), c.aff)
                if c.notnull and dv is None:
                    raise OperationalError("Cannot add a NOT NULL column with default value NULL")
                t.idx[c.name.lower()] = len(t.cols)
                t.cols.append(c)
                t.rows = [(rid, v + (dv,)) for rid, v in t.rows]
                if d.get("fk"):
                    f = d["fk"]
                    t.fks = t.fks + [((len(t.cols) - 1,), f[0], f[1], f[2])]
                return None
            if kind == "alter_rename":
                new = ast[2]
                if new.lower() in state.tables:
                    raise OperationalError("there is already another table or index with this name: %s" % new)
                t.name = new
                del state.tables[key]
                state.tables[new.lower()] = t
                state.own.add(new.lower())
                state.order[state.order.index(("table", key))] = ("table", new.lower())
                for n, i in list(state.indexes.items()):
                    if i["table"].lower() == key:
                        state.indexes[n] = dict(i, table=new)
                for n, i in list(state.triggers.items()):
                    if i["table"].lower() == key:
                        state.triggers[n] = dict(i, table=new)
                for k2 in list(state.tables):
                    c = state.tables[k2]
                    if any(fk[1].lower() == key for fk in c.fks):
                        c = state.wtable(k2).schema_clone()
                        c.fks = [(fk[0], new if fk[1].lower() == key else fk[1]) + tuple(fk[2:]) for fk in c.fks]
                        state.tables[k2] = c
                return None
            if kind == "alter_rename_col":
                i = t.idx.get(ast[2].lower())
                if i is None:
                    raise OperationalError('no such column: "%s"' % ast[2])
                old = t.cols[i]
                c = Col(ast[3], old.type, old.notnull, old.default, old.collate)
                t.cols[i] = c
                del t.idx[ast[2].lower()]
                t.idx[ast[3].lower()] = i
                return None
            if kind == "alter_drop":
                raise Unsupported("drop column")
        raise Unsupported("statement %s" % kind)

    def _build(self, t, cols, cons):
        t.pk = None
        for d in cols:
            if d["name"].lower() in t.idx:
                raise OperationalError("duplicate column name: %s" % d["name"])
            i = len(t.cols)
            t.idx[d["name"].lower()] = i
            t.cols.append(Col(d["name"], d["type"], d.get("notnull"), d.get("default"), d.get("collate")))
            t.checks += d["cons"]
            if d.get("pk"):
                self._pk(t, [i], d["pk"], d.get("auto"))
            if d.get("unique"):
                t.uniques.append(((i,), d["unique"], "%s.%s" % (t.name, d["name"])))
            if d.get("fk"):
                f = d["fk"]
                if f[3]:
                    raise Unsupported("deferred foreign key")
                t.fks.append(((i,), f[0], f[1], f[2]))
        for c in cons:
            if c[0] in ("pk", "unique"):
                idxs = []
                for n in c[1]:
                    if n.lower() not in t.idx:
                        raise OperationalError('table %s has no column named %s' % (t.name, n))
                    idxs.append(t.idx[n.lower()])
                if c[0] == "pk":
                    self._pk(t, idxs, c[2], False)
                else:
                    label = ", ".join("%s.%s" % (t.name, t.cols[i].name) for i in idxs)
                    t.uniques.append((tuple(idxs), c[2], label))
            elif c[0] == "check":
                t.checks.append(c[1])
            else:
                idxs = tuple(t.idx[n.lower()] for n in c[1])
                f = c[2]
                if f[3]:
                    raise Unsupported("deferred foreign key")
                t.fks.append((idxs, f[0], f[1], f[2]))

    def _pk(self, t, idxs, policy, auto):
        label = ", ".join("%s.%s" % (t.name, t.cols[i].name) for i in idxs)
        if len(idxs) == 1 and t.cols[idxs[0]].type.upper() == "INTEGER":
            t.rowid_col = idxs[0]
            t.autoinc = bool(auto)
            t.uniques.insert(0, ("rowid", policy, label))
        else:
            t.pk = tuple(idxs)
            t.uniques.insert(0, (tuple(idxs), policy, label))


def connect(database, *args, **kw):
    names = ["timeout", "detect_types", "isolation_level", "check_same_thread", "factory", "cached_statements", "uri"]
    for n, v in zip(names, args):
        kw[n] = v
    return Connection(database, **kw)


def complete_statement(s):
    return s.strip().endswith(";")


def make_module():
    m = types.ModuleType("sqlite3")
    for n in (
        "Warning Error InterfaceError DatabaseError OperationalError IntegrityError InternalError ProgrammingError "
        "NotSupportedError DataError PARSE_DECLTYPES PARSE_COLNAMES sqlite_version sqlite_version_info version "
        "apilevel paramstyle threadsafety register_adapter register_converter adapters converters Row Cursor "
        "Connection connect complete_statement LEGACY_TRANSACTION_CONTROL SQLITE_OK"
    ).split():
        setattr(m, n, globals()[n])
    m.Binary = memoryview
    dbapi2 = types.ModuleType("sqlite3.dbapi2")
    dbapi2.__dict__.update({k: v for k, v in m.__dict__.items() if not k.startswith("__")})
    m.dbapi2 = dbapi2
    m.__path__ = []
    return m
