"""Requests to the web interface, through the real dispatcher and tools but
without a network server."""
import io
from urllib.parse import urlencode

from engine import hr
from . import common as K


def serve(env, idx, **kw):
    """mounts the application the way the project does"""
    import cherrypy

    nothing = lambda *a, **k: None
    env.patch(cherrypy.engine, "start", nothing)
    env.patch(cherrypy.engine, "wait", nothing)
    env.patch(cherrypy.engine.signals, "subscribe", nothing)
    env.patch(cherrypy.config, "update", nothing)
    server = hr.server.SingleIndexServer(idx.db_path, pool=K.pool(2), **kw)
    cherrypy.tree.apps.clear()
    hr.server.launch_web_server(server)
    for app in cherrypy.tree.apps.values():
        app.log.screen = False
        app.log.error_file = app.log.access_file = ""
    env.undo.append(cherrypy.tree.apps.clear)
    return server


def request(method, path, params=(), body=True):
    """params: (name, value) pairs, sent as a form or as a query string.
    Returns (status, headers, body)."""
    import cherrypy

    data = urlencode(list(params)).encode()
    environ = {
        "REQUEST_METHOD": method,
        "SCRIPT_NAME": "",
        "PATH_INFO": path,
        "QUERY_STRING": "",
        "SERVER_NAME": "localhost",
        "SERVER_PORT": "80",
        "SERVER_PROTOCOL": "HTTP/1.1",
        "HTTP_HOST": "localhost",
        "REMOTE_ADDR": "127.0.0.1",
        "REMOTE_PORT": "1",
        "wsgi.version": (1, 0),
        "wsgi.url_scheme": "http",
        "wsgi.input": io.BytesIO(b""),
        "wsgi.errors": io.StringIO(),
        "wsgi.multithread": False,
        "wsgi.multiprocess": False,
        "wsgi.run_once": False,
    }
    if body:
        environ["wsgi.input"] = io.BytesIO(data)
        environ["CONTENT_TYPE"] = "application/x-www-form-urlencoded"
        environ["CONTENT_LENGTH"] = str(len(data))
    else:
        environ["QUERY_STRING"] = data.decode()
    out = {}

    def start_response(status, headers, exc_info=None):
        out["status"], out["headers"] = status, headers
        return lambda b: None

    it = cherrypy.tree(environ, start_response)
    try:
        text = b"".join(it)
    finally:
        if hasattr(it, "close"):
            it.close()
    return int(out["status"].split()[0]), {k.lower(): v for k, v in out["headers"]}, text.decode("utf-8", "replace")
