import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "meta"))
from props import P
ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
P.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    assert os.path.exists(os.path.join(V, "rules", "p_%s.py" % p["id"])), p["id"]
    checks.append({"property": p["id"], "quick_cmd": "bash check.sh %s" % p["id"], "thorough_cmd": "bash check.sh %s" % p["id"],
                   "technique": "static analysis of type-checked MIR (custom rustc driver + dataflow rules): " + p["how"],
                   "level": "other",
                   "level_note": "Decides the stated obligations for all inputs from the source's MIR; trusts rustc's front end and the analysis code in /verif/rules." + (" " + p["limits"] if p["limits"] else "")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the checks analyse /repo as it is", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check runs the same pipeline: type-check /repo with the facts driver (cached by content hash), then decide the rule of one property."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
# property table of DESIGN.md
d = os.path.join(V, "DESIGN.md")
if os.path.exists(d):
    s = open(d).read()
    a, b = "<!-- table -->\n", "<!-- /table -->"
    if a in s:
        rows = []
        for p in P:
            rows.append("### %s — %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"]) +
                        ("*Not applicable:* %s\n" % p["na"] if p["na"] else "*Decided by:* %s.  %s\n" % (p["how"], ("*Limits:* " + p["limits"]) if p["limits"] else "")))
        s = s.split(a)[0] + a + "\n".join(rows) + b + s.split(b)[1]
        open(d, "w").write(s)
print(len(checks), "checks,", len(na), "not applicable")
