#!/usr/bin/env python3
"""Confirms a planted bug and stores it under seeded/.  usage: plant.py FILE [ID...]
FILE is python defining BUGS, a list of dicts: id, property, edits[(file, old, new)], needs, breaks,
and demo: dict(src, args, want[..], reject[..]) or script (text of demo.sh), files{name: text}."""
import subprocess, sys, os, json, stat
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(["bash", "-c", c], capture_output=True, text=True, **k)
DEMO = '''#!/bin/bash
# converts doc.adoc with the CLI and looks for the output it must contain
d=$(cd "$(dirname "$0")" && pwd)
out=$(/repo/target/debug/asciidork %s < "$d/doc.adoc" 2>&1) || { echo "conversion failed: $out"; exit 1; }
flat=$(printf '%%s' "$out" | tr -d '\\n')
while IFS= read -r want; do
  [ -z "$want" ] && continue
  case "$flat" in *"$want"*) ;; *) echo "missing: $want"; echo "$out"; exit 1 ;; esac
done < "$d/want.txt"
exit 0
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
for b in ns["BUGS"]:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]: continue
    d = f"{V}/seeded/{b['id']}"
    assert sh("git -C /repo status --porcelain").stdout == "", "dirty /repo"
    os.makedirs(d, exist_ok=True)
    if "script" in b:
        open(d + "/demo.sh", "w").write(b["script"])
    else:
        open(d + "/doc.adoc", "w").write(b["src"]); open(d + "/want.txt", "w").write("\n".join(b["want"]) + "\n")
        open(d + "/demo.sh", "w").write(DEMO % b.get("args", "-f dr-html -e"))
    for n, t in b.get("files", {}).items(): open(f"{d}/{n}", "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    sh("bash /opt/vp/build.sh")
    r = sh(f"cd /repo && bash {d}/demo.sh")
    if r.returncode: print(b["id"], "DEMO FAILS ON CLEAN:", r.stdout[-600:], r.stderr[-300:]); ok = False
    try:
        for f, old, new in b["edits"]:
            s = open("/repo/" + f).read()
            if s.count(old) != 1: print(b["id"], f"{s.count(old)} matches for {old!r}"); ok = False; continue
            open("/repo/" + f, "w").write(s.replace(old, new))
        if not ok: continue
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        r = sh("bash /opt/vp/build.sh")
        if r.returncode: print(b["id"], "DOES NOT BUILD", r.stderr[-1500:]); continue
        sh("bash /opt/vp/test.sh /tmp/plant_t.json")
        t = json.load(open("/tmp/plant_t.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        def passed(x):
            return set(x.get("passed") or x.get("stable") or [])
        miss = [n for n in (base.get("stable") or base.get("passed")) if n not in passed(t)]
        if miss: print(b["id"], "TESTS FAIL", miss[:5]); continue
        r = sh(f"cd /repo && bash {d}/demo.sh")
        if r.returncode == 0: print(b["id"], "DEMO PASSES WITH PATCH"); continue
        res = []
        for p in b.get("check", [b["property"]]):
            c = sh(f"cd {V} && VERIF_SEED=1 VERIF_TIER=quick bash check.sh check {p} quick")
            res.append(f"{p}: " + ("caught" if c.returncode == 1 and f"VIOLATION property={p} " in c.stdout else "missed"))
            print(b["id"], "confirmed; check", p, "exit", c.returncode, (c.stdout.strip().splitlines() or [''])[-1][:160])
        cj = V + "/tools/catches.json"
        cat = json.load(open(cj)) if os.path.exists(cj) else {}
        cat[b["id"]] = ", ".join(res); json.dump(cat, open(cj, "w"), indent=1, sort_keys=True)
    finally:
        sh("git -C /repo checkout -- .")
sh("bash /opt/vp/build.sh")
