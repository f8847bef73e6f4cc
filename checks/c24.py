"""C24: only POST requests change the model, and they change what the form named."""
import inspect

from engine import hr
from . import common as K
from . import models as M
from . import web
from .c07 import snapshot

BOUNDS = {
    "quick": "every URL with every method but POST; every form with none or up to 2 (selected forms: 3) ids out of every model of 2-3 features in "
    "up to 2-3 clusters over 1-2 documents with arbitrary document sets and pins, and with 3 to all ids of models of 9 features in 5 clusters",
    "thorough": "forms with up to 3 ids, 4 features in up to 3 clusters over 2 documents",
}
ASSUMPTIONS = [
    "Requests go through the real dispatcher, tools and handlers of CherryPy in process; the network server is not started.",
    "Refining and recreating are checked up to the settings handed to Index.refine_clusters and Index.initialise_clusters "
    "(what those do is C06, C08 and C09).",
]

PAGES = [
    ("/", []),
    ("/index/", []),
    ("/index/0", []),
    ("/index/0/", [("feature_id", "1")]),
    ("/index/0/", [("cluster_id", "0")]),
    ("/index/0/details", []),
    ("/index/0/export_clusters", []),
    ("/index/0/search", [("field", "text"), ("value", "v000")]),
    ("/index/0/cluster/", []),
    ("/index/0/cluster/0", []),
    ("/index/0/cluster/0/", [("feature_id", "1")]),
    ("/index/0/cluster/0/", [("filter_cluster_id", "2")]),
    ("/index/0/cluster/0/search", [("field", "text"), ("value", "v000")]),
    ("/index/0/feature/", []),
    ("/index/0/feature/1", []),
]
FORMS = [
    ("/index/0/cluster/delete", [("cluster_id", "0")]),
    ("/index/0/cluster/create", [("feature_id", "1")]),
    ("/index/0/cluster/merge", [("cluster_id", "0"), ("cluster_id", "2")]),
    ("/index/0/cluster/refine", [("cluster_id", "0"), ("target_clusters", "2"), ("iterations", "1")]),
    ("/index/0/cluster/pin", [("cluster_id", "0"), ("pinned", "1")]),
    ("/index/0/feature/remove_from_model", [("feature_id", "1")]),
    ("/index/0/feature/pin", [("feature_id", "1"), ("pinned", "1")]),
    ("/index/0/recreate_model", [("min_docs", "1"), ("clusters", "2"), ("iterations", "1")]),
    ("/index/0/refine_model", [("iterations", "1"), ("target_clusters", "2")]),
]
METHODS = ("GET", "HEAD", "PUT", "DELETE", "PATCH", "OPTIONS")


def run_read(env, urls, methods, F=2, C=2, D=1, fixed=(1, 2)):
    """no request with a method other than POST changes the model"""
    idx, fids, bits, assign, pins, cpins = M.state(env, F, C, D, fixed=fixed)
    before = snapshot(idx.db)
    server = web.serve(env, idx)
    env.draws = "first"
    path, params = (PAGES + FORMS)[urls[env.pick("url", len(urls))]]
    method = methods[env.pick("method", len(methods))]
    body = method not in ("GET", "HEAD") and env.pick("as form", 2) == 1
    status, headers, text = web.request(method, path, params, body=body)
    env.reach("answered")
    if (path, params) in FORMS:
        env.reach("form")
        env.check(status >= 400, "a request to change the model with another method is refused")
    elif status == 200:
        env.reach("page")
    db = K.reader(env, idx)
    env.check(env.same(snapshot(db), before), "the model is as it was")
    env.observe("status", status)


def submitted(env, op, ids, what):
    """name, value pairs for a form, with other fields around them"""
    return [(what, str(i)) for i in ids]


URLS = {
    "delete_clusters": ("/index/0/cluster/delete", "cluster_id"),
    "delete_features": ("/index/0/feature/remove_from_model", "feature_id"),
    "merge_clusters": ("/index/0/cluster/merge", "cluster_id"),
    "create_cluster": ("/index/0/cluster/create", "feature_id"),
    "pin_features": ("/index/0/feature/pin", "feature_id"),
    "pin_clusters": ("/index/0/cluster/pin", "cluster_id"),
}


def run_post(env, op, F=0, C=0, D=0, nargs=0, fixed=None, sizes=None):
    if sizes:
        idx, fids, bits, assign, pins, cpins = M.large_state(env, sizes, (0, 3))
        C = len(sizes)
    else:
        idx, fids, bits, assign, pins, cpins = M.state(env, F, C, D, fixed=fixed)
    server = web.serve(env, idx)
    used = set(cpins)
    assign, pins, cpins = dict(assign), dict(pins), dict(cpins)
    path, what = URLS[op]
    choices = list(env.cids[:C]) + [9] if what == "cluster_id" else list(fids)
    if sizes:
        # many of them, in any order of these
        choices = [c for c in choices if c != 9]
        n = 3 + env.pick("number of ids", len(choices) - 2)
        start = env.pick("first", len(choices))
        ids = (choices[start:] + choices[:start])[:n]
    else:
        n = env.pick("number of ids", nargs + 1)
        ids = [choices[env.pick("id %d" % i, len(choices))] for i in range(n)]
    params = [(what, str(i)) for i in ids]
    flag = True
    if op.startswith("pin"):
        flag = env.pick("pinned", 3)
        if flag < 2:  # otherwise the form does not say
            params.insert(0, ("pinned", str(flag)))
        flag = bool(flag)
    other = "cluster_id" if what == "feature_id" else "return_cluster_id"
    if op in ("delete_clusters", "delete_features", "pin_features") and env.pick("return to", 2):
        params.append((other, "0"))
    elsewhere = op == "pin_clusters" and env.pick("return elsewhere", 2) == 1
    if elsewhere:
        params.append(("return_to", "model"))
    status, headers, text = web.request("POST", path, params)
    location = headers.get("location", "")
    if op == "delete_clusters":
        for f in list(assign):
            if assign[f] in ids:
                del assign[f], pins[f]
    elif op == "delete_features":
        for f in ids:
            assign.pop(f, None)
            pins.pop(f, None)
    elif op == "merge_clusters":
        for f in assign:
            if assign[f] in ids:
                assign[f] = ids[0]
    elif op == "create_cluster":
        for f in ids:
            assign[f] = "new"
            pins.setdefault(f, False)
    elif op == "pin_features":
        for f in ids:
            if f in pins:
                pins[f] = flag
    elif op == "pin_clusters":
        for c in ids:
            if c in cpins:
                cpins[c] = flag
    db = K.reader(env, idx)
    fc, cl = K.check_summaries(env, db, bits)
    ret = None
    if op == "create_cluster" and ids:
        new = set(fc[f][0] for f in ids if f in fc)
        env.check(len(new) == 1, "one new cluster")
        if len(new) != 1:
            return
        ret = new.pop()
        env.check(ret not in used, "the new cluster's id was not in use")
    M.check_result(env, fc, cl, ret, assign, pins, cpins)
    if not ids:
        # nothing was selected
        env.reach("none")
        return
    known = 9 not in ids
    env.check(300 <= status < 400 or not known, "redirects afterwards")
    if status < 400 and op in ("create_cluster", "merge_clusters"):
        want = ret if op == "create_cluster" else ids[0]
        env.check(location.rstrip("/").endswith("/index/0/cluster/%d" % want), "redirects to the new cluster")
    env.reach("one" if n == 1 else "several")
    env.observe("result", [status, location, sorted(fc), sorted(cl)])


def recorder(env, name, calls):
    real = getattr(hr.index.Index, name)
    sig = inspect.signature(inspect.unwrap(real))

    def record(self, *args, **kwargs):
        b = sig.bind(self, *args, **kwargs)
        b.apply_defaults()
        a = dict(b.arguments)
        del a["self"]
        calls.append((name, a))

    env.patch(hr.index.Index, name, record)


def run_settings(env, form, nargs=2, sizes=None):
    """refining and recreating get exactly the settings submitted"""
    if sizes:
        idx, fids, bits, assign, pins, cpins = M.large_state(env, sizes, (0,))
    else:
        idx, fids, bits, assign, pins, cpins = M.state(env, 2, 2, 1, fixed=(1, 2))
    before = snapshot(idx.db)
    server = web.serve(env, idx)
    calls = []
    defaults = {}
    for name in ("refine_clusters", "initialise_clusters"):
        sig = inspect.signature(inspect.unwrap(getattr(hr.index.Index, name)))
        defaults[name] = {k: p.default for k, p in sig.parameters.items() if p.default is not p.empty}
        recorder(env, name, calls)
    path = {"refine": "/index/0/cluster/refine", "refine_model": "/index/0/refine_model", "recreate": "/index/0/recreate_model"}[form]
    params = []
    want = {}

    def setting(field, arg, values, default=None, convert=int):
        v = env.pick(field, len(values) + 1)
        if v < len(values):
            params.append((field, values[v]))
            want[arg] = convert(values[v]) if values[v] != "" else default
        else:
            want[arg] = default

    ids = None
    if form == "refine":
        n = env.pick("number of ids", nargs + 1)
        if sizes:
            ids = list(env.cids[nargs - n :])
        else:
            ids = [M.CIDS[env.pick("id %d" % i, 2)] for i in range(n)]
        params += [("cluster_id", str(i)) for i in ids]
    if form in ("refine", "refine_model"):
        setting("target_clusters", "target_clusters", ["", "0", "1", "3"])
    if form == "refine" and env.pick("return elsewhere", 2):
        params.append(("return_to", "model"))
    setting("iterations", "iterations", ["0", "7"], 10)
    setting("minimum_cluster_features", "minimum_cluster_features", ["0", "2"], 1)
    fields = None
    init = {}
    if form == "recreate":
        keep, want = want, init
        setting("min_docs", "min_docs", ["0", "4"], 10)
        setting("clusters", "n_clusters", ["2", "16"], 64)
        want = keep
        n = env.pick("number of fields", nargs + 1)
        fields = [("text", "tag")[env.pick("field %d" % i, 2)] for i in range(n)]
        params += [("include_fields", f) for f in fields]
        want["target_clusters"] = None
    status, headers, text = web.request("POST", path, params)
    if ids == []:
        env.check(calls == [], "without any clusters submitted, none is refined")
        env.reach("none")
        return
    env.check(300 <= status < 400, "redirects afterwards")
    names = [n for n, _ in calls]
    expected = (["initialise_clusters"] if form == "recreate" else []) + ["refine_clusters"]
    env.check(names == expected, "exactly the operation of the URL is applied")
    if names != expected:
        return
    got = dict(calls)
    refine = got["refine_clusters"]
    env.check(sorted(set(refine.pop("cluster_ids") or [])) == sorted(set(ids or [])), "exactly the clusters submitted")
    env.check((refine.pop("target_clusters") or None) == (want.pop("target_clusters") or None), "the target submitted")
    for k, v in want.items():
        env.check(refine.pop(k) == v, k + " as submitted")
    for k, v in refine.items():
        env.check(v == defaults["refine_clusters"].get(k), k + " is not set by the form")
    if form == "recreate":
        made = got["initialise_clusters"]
        env.check(sorted(set(made.pop("include_fields") or [])) == sorted(set(fields)), "exactly the fields submitted")
        for k, v in init.items():
            env.check(made.pop(k) == v, k + " as submitted")
    env.check(env.same(snapshot(K.reader(env, idx)), before), "nothing else is changed")
    env.reach("applied")
    env.observe("settings", [status, str(calls)])


MISSING = [
    ("GET", "/index/1/"),
    ("GET", "/index/1/details"),
    ("GET", "/index/1/export_clusters"),
    ("GET", "/index/7/cluster/0"),
    ("GET", "/index/x/"),
    ("POST", "/index/1/cluster/delete"),
    ("POST", "/index/1/feature/remove_from_model"),
    ("GET", "/index/0/cluster/9"),
    ("GET", "/index/0/cluster/9/"),
    ("GET", "/index/0/cluster/x/"),
    ("GET", "/index/0/cluster/-1/"),
    ("GET", "/index/-1/"),
    ("GET", "/index/-1/details"),
    ("POST", "/index/-1/cluster/delete"),
    ("GET", "/index/0/cluster/-2/"),
    ("GET", "/index/0/cluster/1/"),
    ("GET", "/index/0/cluster/2.0/"),
    ("GET", "/index/0.0/"),
    ("GET", "/index/0/?cluster_id=-2"),
    ("GET", "/index/0/?cluster_id=1"),
    ("GET", "/index/0/cluster/0/?filter_cluster_id=-2"),
    ("GET", "/index/0/cluster/0/?filter_cluster_id=1"),
    ("GET", "/index/0/?cluster_id=9"),
    ("GET", "/index/0/cluster/0/?filter_cluster_id=9"),
]


def run_missing(env):
    idx, fids, bits, assign, pins, cpins = M.state(env, 2, 2, 1, fixed=(1, 2))
    before = snapshot(idx.db)
    server = web.serve(env, idx)
    env.draws = "first"
    method, path = MISSING[env.pick("request", len(MISSING))]
    path, _, q = path.partition("?")
    params = [tuple(q.split("="))] if q else []
    if method == "POST":
        params = [("cluster_id" if "cluster" in path else "feature_id", "0")]
    status, headers, text = web.request(method, path, params, body=method == "POST")
    if 300 <= status < 400:  # as a browser does
        path = headers["location"].partition("localhost")[2] or headers["location"]
        status, headers, text = web.request("GET", path, body=False)
    env.check(status == 404, "%s %s%s is answered with not found" % (method, path, q and "?" + q))
    env.check(env.same(snapshot(K.reader(env, idx)), before), "nothing is changed")
    env.reach("asked")
    env.observe("status", status)


def run_malformed(env):
    """what is not an id among the ids submitted"""
    idx, fids, bits, assign, pins, cpins = M.state(env, 3, 2, 1, fixed=(1, 2, 1))
    before = snapshot(idx.db)
    server = web.serve(env, idx)
    op = M.OPS[env.pick("form", len(M.OPS))]
    path, what = URLS[op]
    ids = [str((M.CIDS if what == "cluster_id" else fids)[i]) for i in range(env.pick("others", 3))]
    ids.insert(env.pick("at", len(ids) + 1), ["x", "", "1.5", "0 2"][env.pick("value", 4)])
    status, headers, text = web.request("POST", path, [(what, i) for i in ids])
    env.check(status >= 400, "what does not name ids is refused")
    env.check(env.same(snapshot(K.reader(env, idx)), before), "nothing is changed")
    env.reach("refused")
    env.observe("status", status)


def posts(F, C, D, nargs, **kw):
    return [dict(op=op, F=F, C=C, D=D, nargs=nargs, **kw) for op in M.OPS]


N = len(PAGES)
SCENARIOS = {
    "read": {
        "run": run_read,
        "quick": [
            dict(urls=list(range(0, N, 2)), methods=METHODS),
            dict(urls=list(range(1, N, 2)), methods=METHODS),
            dict(urls=list(range(N, N + len(FORMS))), methods=METHODS),
        ],
        "thorough": [
            dict(urls=[u], methods=METHODS, F=3, C=2, D=2, fixed=(1, 2, 1)) for u in range(N + len(FORMS))
        ],
        "reach": ["answered", "form", "page"],
    },
    "post": {
        "run": run_post,
        "quick": posts(3, 2, 1, 2, fixed=(1, 2, 0)) + posts(3, 2, 2, 2, fixed=(1, 1, 2)) + posts(3, 3, 1, 3, fixed=(1, 2, 3)) + [dict(op=op, sizes=[2, 1, 3, 1, 2]) for op in M.OPS],
        "thorough": posts(4, 3, 1, 3, fixed=(1, 2, 3, 1)) + posts(3, 3, 1, 2) + posts(3, 2, 2, 3, fixed=(1, 1, 2)),
        "reach": ["none", "one", "several"],
    },
    "settings": {
        "run": run_settings,
        "quick": [dict(form="refine"), dict(form="refine", nargs=6, sizes=[1, 2, 1, 1, 2, 1]), dict(form="refine_model"), dict(form="recreate")],
        "thorough": [dict(form="refine", nargs=3), dict(form="refine_model"), dict(form="recreate", nargs=3)],
        "reach": ["none", "applied"],
    },
    "malformed": {"run": run_malformed, "quick": [dict()], "reach": ["refused"]},
    "missing": {"run": run_missing, "quick": [dict()], "reach": ["asked"]},
}
