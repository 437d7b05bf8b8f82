"""rewrite what follows the marker in DESIGN.md: findings, repaired defects, planted bugs, sizes of the checks"""
import glob
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
head = open(p).read().split("<!-- GENERATED -->")[0]
o = [head + "<!-- GENERATED -->\n"]
k = json.load(open(os.path.join(V, "known-findings.json")))
o.append("## Known findings (genuine, not repaired)\n")
for f in k["findings"]:
    o.append(f"* **{f['property']} {f['id']}** (`findings/{f['demo']}`): {f['what']}.")
o.append("\nEach is left because a stable test pins the present behaviour. The checks generate around exactly these inputs, "
         "run the demonstration, print the KNOWN-FINDING line, and report anything else.\n")
o.append(f"## Genuine defects found by the checks and repaired ({len(k['fixed'])} commits in /repo)\n")
for f in k["fixed"]:
    w = f.split(" ", 3)
    o.append(f"* {w[1].split('=')[1]} `{w[2]}` {w[3]}")
o.append("\n## Planted bugs\n")
o.append("In `seeded/` (run by vcheck) and `planted/` (the same format; they take part in no vcheck, for its time: "
         "s04 and s05 change headers included everywhere; all were caught by a full vcheck or by "
         "the check of their property).\n")
o.append("| bug | property, caught by | needs |\n|---|---|---|")
for m in sorted(glob.glob(V + "/seeded/*/meta.json") + glob.glob(V + "/planted/*/meta.json"), key=lambda s: s.split("/")[-2]):
    d = json.load(open(m))
    o.append(f"| {'/'.join(m.split('/')[-3:-1])} | {d['property']} | {d['needs']} |")
ex = os.path.join(V, "bin", "planted-notes.md")
if os.path.exists(ex):
    o.append("\n" + open(ex).read())
sys.path[:0] = [os.path.join(V, "build", "pkg"), os.path.join(V, "lib"), os.path.join(V, "checks")]
import fw  # noqa: E402
o.append("\n## Sizes of the checks\n\n| property | arm | quick cases | thorough cases |\n|---|---|---|---|")
for c in sorted(glob.glob(V + "/checks/C*.py")):
    n = os.path.basename(c)[:-3]
    for a in fw.load_check(n).ARMS:
        o.append(f"| {n} | {a.name} | {a.quick} | {a.thorough} |")
open(p, "w").write("\n".join(o) + "\n")
