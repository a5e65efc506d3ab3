#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, re, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

P = []
def prop(id, title, statement, over, quant, why, mech, state=None, note="", claim=True, reason=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, mech=mech, state=state or [], note=note, claim=claim, reason=reason))

exec(open(os.path.join(ROOT, "tools", "properties.py")).read())

def where(f, name):
    """file:line of a function, type or constant of the current tree"""
    path = os.path.join(REPO, f)
    pat = re.compile(r"^(func (\([^)]*\) )?|type |var |const |\t)%s\b" % re.escape(name))
    rec = None
    if "." in name:
        rec, name = name.split(".", 1)
        pat = re.compile(r"^func \(\w+ \*?%s\) %s\b" % (re.escape(rec), re.escape(name)))
    for n, l in enumerate(open(path), 1):
        if pat.match(l):
            return "%s:%d" % (f, n)
    raise SystemExit("no %s in %s" % (name, f))

out, checks, na = [], [], []
for p in P:
    assert re.match(r"^[A-Z][0-9]{2,3}$", p["id"]) and len(p["title"]) <= 80, p["id"]
    mech, files = [], []
    for what, f, n in p["mech"]:
        mech.append({"name": what, "where": where(f, n)})
        if f not in files: files.append(f)
    a = {"files": files, "mechanism": mech, "observe_at": [], "hook_needed": None}
    st = [{"name": s[0], "meaning": s[1], "where": where(s[2], s[3])} for s in p["state"]]
    if st: a["state"] = st
    out.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"], "anchors": a})
    if p["claim"]:
        checks.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"],
            "thorough_cmd": "./check %s thorough" % p["id"],
            "technique": p.get("technique") or TECH.get(p["id"], TECHNIQUE), "level": "model_checking", "level_note": p["note"] or NOTE.get(p["id"], "")})
    else:
        na.append({"property": p["id"], "reason": p["reason"]})
for c in checks:
    assert c["level_note"], c["property"]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for o in out: f.write(json.dumps(o, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "tools/build-engine.sh", "checks": checks, "not_applicable": na, "notes": NOTES}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for o in out: jsonschema.validate(o, s)
    print("valid:", len(out), "properties,", len(checks), "checks")
except ImportError:
    print("not validated")
