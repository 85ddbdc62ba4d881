#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below, so that they stay in step."""
import json, os
L = "lib/go/src/thrift/"
BIN, CMP, JS, SJ, PROTO = L+"tbinary_protocol.go", L+"tcompact_protocol.go", L+"tjson_protocol.go", L+"tsimple_json_protocol.go", L+"tprotocol.go"
P = []
def prop(id, title, statement, over, text, tests, files, mech, observe, note, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = state
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=tests, anchors=a), note))
exec(open(os.path.join(os.path.dirname(__file__), "table.py")).read())
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p, _ in P: f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
 "checks": [{"property": p["id"], "quick_cmd": "bash run.sh %s quick" % p["id"], "thorough_cmd": "bash run.sh %s thorough" % p["id"],
   "technique": "property-based testing: " + note[0], "level": "exploration", "level_note": note[1]} for p, note in P],
 "not_applicable": NA,
 "notes": NOTES}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
