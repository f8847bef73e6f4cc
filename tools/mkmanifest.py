"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
NA = {
    "N01": "Tokenisation is one call into the C library `regex` with Unicode word-break rules: neither its code nor its rules can be encoded for the solver here.",
    "N02": "Storage of document sets is CRoaring's C serialisation and SQLite's C blob storage: the code that decides it cannot be encoded from Python source or IR available here; it is trusted by the other checks.",
    "N04": "Durability after a machine crash is decided inside SQLite (WAL, fsync) and the file system, not in code of this repository that could be encoded.",
}
NOT_BUILT = "The check for this property is not built yet."
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        m = importlib.import_module("checks." + i.lower())
        checks.append({
            "property": i,
            "quick_cmd": "python3-vt -W ignore check.py %s quick" % i,
            "thorough_cmd": "python3-vt -W ignore check.py %s thorough" % i,
            "technique": "path-wise symbolic execution of the real Python and SQL with z3; counterexamples replayed on the real code",
            "level": "model_checking",
            "level_note": "Holds for every value within the bounds: %s. Trusts z3 and the encodings of SQLite and CRoaring, which are "
            "compared with the real libraries on sampled solver models in every run.%s" % (m.BOUNDS["quick"], " " + m.NOTE if hasattr(m, "NOTE") else ""),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, NOT_BUILT)})
json.dump({
    "version": 1,
    "setup_cmd": "python3-vt -c \"import z3\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "See DESIGN.md. Violations leave evidence/replay-<id>.json; `python3-vt check.py replay FILE` runs it on the real code.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
