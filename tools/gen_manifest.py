#!/usr/bin/env python3
"""Writes MANIFEST.json and DESIGN.md from the check modules, the property list, design_head.md and seeded/."""
import ast, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(H + "/properties.jsonl")]
NOT_APPLICABLE = {}


def consts(path):
    tree = ast.parse(open(path).read())
    out = {"doc": ast.get_docstring(tree) or ""}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


checks, na, sections = [], [], []
caught = {}
if os.path.exists(H + "/notes/caught.json"):
    caught = json.load(open(H + "/notes/caught.json"))
seeds = {}
for d in sorted(os.listdir(H + "/seeded")):
    m = H + f"/seeded/{d}/meta.json"
    if os.path.exists(m):
        meta = json.load(open(m))
        seeds.setdefault(meta["property"], []).append((d, meta))
for p in props:
    path = H + f"/vp/checks/{p['id'].lower()}.py"
    if os.path.exists(path):
        c = consts(path)
        checks.append({"property": p["id"], "quick_cmd": f"python3 run_check.py {p['id']}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 run_check.py {p['id']}",
                       "evidence_file": f"evidence/{p['id']}.json",
                       "technique": c["TECHNIQUE"], "level": "exploration", "level_note": c["LEVEL_NOTE"]})
        s = f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n**Decided by** {c['TECHNIQUE']}. {c['doc']}\n\n" \
            f"*Workload:* {c.get('RULE', '')}. Cases: {c.get('CASES', {})}. " \
            f"*Must be observed, else the run is inconclusive:* {c.get('REQUIRE', {})}.\n"
        if c.get("ASSUMPTIONS"):
            s += "*Assumed:* " + "; ".join(c["ASSUMPTIONS"]) + ".\n"
        for d, m in seeds.get(p["id"], []):
            s += f"\n- planted `{d}`: {m['what_it_breaks']} Needs: {m['needs']} — {caught.get(d, 'not yet run')}"
        sections.append(s + "\n")
    else:
        na.append({"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup_check.py",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every monitor observes through the public API; see DESIGN.md."},
          open(H + "/MANIFEST.json", "w"), indent=1)
head = open(H + "/tools/design_head.md").read()
kf = json.load(open(H + "/known/findings.json"))
tail = "\n## Defects found in uvm-python\n\nRepaired (one `fix:` commit each):\n\n"
tail += "".join(f"- {x}\n" for x in kf["fixed"])
tail += "\nRecorded, not repaired (known findings, each with its own probe):\n\n"
tail += "".join(f"- **{x['property']}/{x['id']}**: {x['what']} {x.get('why_not_fixed', '')}\n" for x in kf["findings"]) or "none\n"
if na:
    tail += "\n## Not claimed\n\n" + "".join(f"- {x['property']}: {x['reason']}\n" for x in na)
open(H + "/DESIGN.md", "w").write(head + "\n## Properties and how each is decided\n\n" + "\n".join(sections) + tail)
print(len(checks), "checks", len(na), "not claimed")
