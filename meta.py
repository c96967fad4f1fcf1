#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, claimed=True, technique=None, note=None, na=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, claimed=claimed, technique=technique, note=note, na=na, state=state, hook=hook))
exec(open(os.path.join(here, "meta_table.py")).read())
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": p["hook"]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "hooks": {"guard": "none", "enable": "no hooks: the simulator uses bluejay's own seams (traits, caches, wardens, writers), the global allocator and the process's random source", "source_commits": []},
    "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough", "technique": p["technique"] or "deterministic simulation with fault injection, seeded search", "level": "exploration", "level_note": p["note"]} for p in P if p["claimed"]],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if not p["claimed"]],
    "notes": "see DESIGN.md",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for l in open(os.path.join(here, "properties.jsonl")):
        jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    print("valid")
except ImportError:
    print("jsonschema missing: run with python3-vt")
