"""Real sqlite3 whose statements pass through the fault hook first."""
import types

hook = None


def wrap(real):
    def call(kind, sql, conn):
        if hook is not None:
            hook(kind, sql, conn)

    class Cursor(real.Cursor):
        def execute(self, sql, *a):
            call("execute", sql, self.connection)
            return super().execute(sql, *a)

        def executemany(self, sql, *a):
            call("executemany", sql, self.connection)
            return super().executemany(sql, *a)

        def executescript(self, sql):
            call("executescript", sql, self.connection)
            return super().executescript(sql)

    class Connection(real.Connection):
        def cursor(self, factory=Cursor):
            return super().cursor(factory)

        def execute(self, *a):
            return self.cursor().execute(*a)

        def executemany(self, *a):
            return self.cursor().executemany(*a)

        def executescript(self, *a):
            return self.cursor().executescript(*a)

        def commit(self):
            call("commit", "commit", self)
            return super().commit()

    m = types.ModuleType("sqlite3")
    m.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith("__")})

    def connect(database, *a, **kw):
        kw.setdefault("factory", Connection)
        kw.setdefault("timeout", 0.05)
        return real.connect(database, *a, **kw)

    m.connect = connect
    m.Connection = Connection
    m.Cursor = Cursor
    return m
