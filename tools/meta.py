#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the fixed: lines of known_findings.jsonl
from the tables below (not part of any check)."""
import json, subprocess, re, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INL = "parser/src/tasks/parse_inlines/mod.rs"
DR = "dr-html-backend/src/asciidoctor_html.rs"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, claim=True, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, claim=claim, state=state))
exec(open(os.path.join(V, "tools", "props.py")).read())
P.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        for x in p["files"] + [w for _, w in p["mech"]]:
            if not os.path.exists("/repo/" + x): print("missing", p["id"], x)
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
          "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "bash check.sh build",
  "checks": [{"property": p["id"], "quick_cmd": f"bash check.sh check {p['id']} quick", "thorough_cmd": f"bash check.sh check {p['id']} thorough",
      "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P if p["claim"]],
  "not_applicable": [{"property": p["id"], "reason": p["note"]} for p in P if not p["claim"]],
  "notes": "No hooks in /repo: every monitor observes public entry points (parser, evaluator, backends, CLI, wasm export). check.sh builds harness/ against /repo's working tree."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False); 
# known findings
kf = os.path.join(V, "known_findings.jsonl")
keep = [l for l in (open(kf).read().splitlines() if os.path.exists(kf) else []) if l.startswith("{")]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "762e4c5..HEAD"], capture_output=True, text=True).stdout.splitlines()
with open(kf, "w") as f:
    for l in keep: f.write(l + "\n")
    for l in log:
        h, s = l.split(" ", 1)
        if not s.startswith("fix: "): continue
        s = s[5:]
        pid = next((p for rx, p in CLASS if re.search(rx, s)), "C01")
        f.write(f"fixed: property={pid} {h} {s}\n")
print(len(P), "properties,", len(man["checks"]), "checks")
# DESIGN.md: everything after "## Properties" is generated
dm = os.path.join(V, "DESIGN.md")
head = open(dm).read().split("\n## Properties\n")[0]
cj = os.path.join(V, "tools", "catches.json")
cat = json.load(open(cj)) if os.path.exists(cj) else {}
out = [head, "\n## Properties\n"]
for p in P:
    out.append(f"\n### {p['id']} {p['title']}\n\n* Decided by: {p['technique']}\n* How and how far: {p['note']}\n* Why not tests: {p['why']}\n")
out.append("\n## Planted bugs and the checks that catch them\n\n| bug | property | needs | check results |\n|---|---|---|---|\n")
for k in sorted(os.listdir(os.path.join(V, "seeded"))):
    mf = os.path.join(V, "seeded", k, "meta.json")
    if not os.path.exists(mf): continue
    m = json.load(open(mf))
    out.append(f"| {k} | {m['property']} | {m['needs']} | {cat.get(k, '')} |\n")
open(dm, "w").write("".join(out))
