#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py; checks them against the schemas when available."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = {"version": 1, "setup_cmd": "bin/facts.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks analyse /repo's source as it is", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props.PROPS:
    if p.get("na"):
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "bin/check " + p["id"], "thorough_cmd": "bin/check " + p["id"],
                            "technique": p["technique"], "level": "other", "level_note": p["level_note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid:", len(props.PROPS), "properties,", len(m["checks"]), "checks")
except ImportError:
    print("written (jsonschema not installed: use python3-vt)")
for p in props.PROPS:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, (p["id"], "too many sentences")

# DESIGN.md: head, the rules of each property, defects, planted bugs
import glob, re
o = open(os.path.join(V, "tools/design.head.md")).read() + "## Properties\n\n"
for p in props.PROPS:
    if p.get("na"):
        continue
    o += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["level_note"].replace(props.TB, "").strip())
    src = open(os.path.join(V, "orov/rules/%s.py" % p["id"].lower())).read()
    for r in re.finditer(r'ctx\.rule\("([^"]+)", "((?:[^"\\]|\\.)*)"\)', src):
        o += "* `%s`: %s\n" % r.groups()
    o += "\n"
o += "### Not applicable\n\n"
for p in props.PROPS:
    if p.get("na"):
        o += "* %s (%s): %s\n" % (p["id"], p["title"], p["na"])
o += "\n" + open(os.path.join(V, "tools/design.tail.md")).read()
for l in open(os.path.join(V, "known_findings.txt")):
    r = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if r:
        o += "* %s `%s`: %s\n" % r.groups()
o += "\n## Planted bugs\n\nEach lies in `seeded/`, compiles, passes the existing tests, and is reported by the check of its property.\n\n"
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    d = json.load(open(f))
    o += "* `%s`: %s. Needs: %s. Caught by: %s.\n" % (os.path.basename(os.path.dirname(f)), d["what_it_breaks"].rstrip("."), d["needs"].rstrip("."), d.get("caught_by", d["property"]))
open(os.path.join(V, "DESIGN.md"), "w").write(o)
