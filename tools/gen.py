#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from tools/propdb.py and tools/design_*.md."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from propdb import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + NOT_APPLICABLE:
        for fn in p["files"]:
            assert os.path.exists(os.path.join("/repo", fn)), fn
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]]}}
        if p.get("state"):
            d["anchors"]["state"] = [{"name": a, "meaning": b} for a, b in p["state"]]
        if p.get("observe_at"):
            d["anchors"]["observe_at"] = p["observe_at"]
        f.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "true", "checks": [
    {"property": p["id"], "quick_cmd": "python3 tools/check.py %s" % p["id"], "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p["id"],
     "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["level_note"]} for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE]}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
out = [open(os.path.join(V, "tools/design_head.md")).read().rstrip(), "", "## The properties and how each is decided", ""]
for p in PROPS:
    out += ["### %s - %s" % (p["id"], p["title"]), "", p["statement"], "", p["design"], ""]
    out += ["Harness: " + ", ".join("`%s`%s" % (h["src"][0], " (" + h["only"] + ")" if h.get("only") else "") for h in p["harnesses"]) + ". Non-trivial cases: " + p["rule"], ""]
for p in NOT_APPLICABLE:
    out += ["### %s - %s (not applicable)" % (p["id"], p["title"]), "", p["statement"], "", p["reason"], ""]
out.append(open(os.path.join(V, "tools/design_tail.md")).read())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
print(len(PROPS), "properties")
