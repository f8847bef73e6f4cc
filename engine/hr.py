"""Loads /repo/hyperreal, either over the symbolic substitutes of sqlite3,
pyroaring and array (load(True), in the solver's interpreter) or over the real
libraries (load(False), in the project's interpreter)."""
import os
import sys
import types

SRC = os.environ.get("HYPERREAL_SRC", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"

SYMBOLIC = None
index = corpus = server = cli = utilities = db_utilities = schema = None
BitMap = FrozenBitMap = AbstractBitMap = None
sqlite3 = None
encoded = set()


def load(symbolic):
    global SYMBOLIC, index, corpus, server, cli, utilities, db_utilities, schema
    global BitMap, FrozenBitMap, AbstractBitMap, sqlite3
    if SYMBOLIC is not None:
        assert SYMBOLIC == symbolic
        return
    SYMBOLIC = symbolic
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(5000)
    if symbolic and SITE not in sys.path:
        sys.path.append(SITE)
    # third party libraries see the real modules
    import logging, networkx, cherrypy, jinja2, lxml.html, dateutil.parser, regex, click, markupsafe
    import click.testing, concurrent.futures, multiprocessing, tempfile, random, gzip, csv

    logging.disable(logging.CRITICAL)
    cherrypy.config.update({"log.screen": False})
    sys.path.insert(0, SRC)
    if symbolic:
        from . import symsql, bitmap, core

        sqlite3 = symsql.make_module()
        sys.modules["sqlite3"] = sqlite3
        py = types.ModuleType("pyroaring")
        py.BitMap, py.FrozenBitMap, py.AbstractBitMap = (
            bitmap.BitMap,
            bitmap.FrozenBitMap,
            bitmap.AbstractBitMap,
        )
        sys.modules["pyroaring"] = py
        real_isinstance = isinstance
        sys.monitoring.use_tool_id(3, "hyperreal-encoded")
        ev = sys.monitoring.events.PY_START

        def start(code, off):
            f = code.co_filename
            if f.startswith(SRC):
                encoded.add("%s:%s" % (f[len(SRC) + 1 :], code.co_qualname))
            return sys.monitoring.DISABLE

        sys.monitoring.register_callback(3, ev, start)
        sys.monitoring.set_events(3, ev)
    else:
        import sqlite3 as sqlite3_
        from . import faults

        sqlite3 = faults.wrap(sqlite3_)
    import pyroaring

    BitMap, FrozenBitMap, AbstractBitMap = (
        pyroaring.BitMap,
        pyroaring.FrozenBitMap,
        pyroaring.AbstractBitMap,
    )
    import hyperreal
    import hyperreal.index, hyperreal.corpus, hyperreal.server, hyperreal.cli
    import hyperreal.utilities, hyperreal.db_utilities, hyperreal._index_schema

    assert os.path.realpath(hyperreal.__file__).startswith(os.path.realpath(SRC)), hyperreal.__file__
    index, corpus, server, cli = hyperreal.index, hyperreal.corpus, hyperreal.server, hyperreal.cli
    utilities, db_utilities, schema = hyperreal.utilities, hyperreal.db_utilities, hyperreal._index_schema
    mods = [m for n, m in sys.modules.items() if n == "hyperreal" or n.startswith("hyperreal.")]
    from . import shims

    for m in mods:
        g = m.__dict__
        for name, v in list(g.items()):
            if isinstance(v, types.ModuleType):
                sub = shims.replacement(v.__name__, sqlite3)
                if sub is not None:
                    g[name] = sub
        if symbolic:
            from . import core

            for n, f in core.BUILTINS.items():
                g.setdefault(n, f)
    _local_imports(shims)
    # `from x import y` of replaced names
    for m in mods:
        g = m.__dict__
        for name, v in list(g.items()):
            sub = shims.replace_object(v)
            if sub is not None:
                g[name] = sub


def _local_imports(shims):
    """imports made inside functions of the project see the substitutes too"""
    import builtins

    original = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        m = original(name, globals, locals, fromlist, level)
        if not level and globals and str(globals.get("__name__")).split(".")[0] == "hyperreal":
            sub = shims.replacement(name, sqlite3)
            if sub is not None:
                if "." in name and not fromlist:
                    top = types.ModuleType(m.__name__)
                    top.__dict__.update(m.__dict__)
                    setattr(top, name.split(".")[1], sub)
                    return top
                return sub
        return m

    builtins.__import__ = imp


def module_of(name):
    return sys.modules[name]
