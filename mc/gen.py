"""writes properties.jsonl and MANIFEST.json from the table below (run after editing it)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/DLMS_SPODES/"
PROPS = []


def P(pid, title, statement, over, text, why, files, mechanism, note, observe=(), technique=None):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over.split(), text=text, why=why,
                      files=[S + f for f in files.split()], mechanism=[dict(zip(("name", "where"), m)) for m in mechanism],
                      note=note, observe=list(observe), technique=technique))


exec(open(os.path.join(V, "mc", "table.py"), encoding="utf-8").read())

NOTE = "Exhaustive over the stated finite space on the real code (no sampling); nothing is claimed outside it. Trusts CPython, the explorer and the reference model in mc/checks/{}.py, which is compared call by call with the implementation. "
TECH = "model checking: explicit-state / stateless enumeration of the implementation in lockstep with a reference model"
with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in PROPS:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mechanism"], "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["title"]
PY = "/opt/venv/bin/python"
json.dump({"version": 1, "setup_cmd": f"{PY} mc/setup.py",
           "checks": [{"property": p["id"], "quick_cmd": f"{PY} mc/run.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough {PY} mc/run.py {p['id']}",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"] or TECH, "level": "model_checking",
                       "level_note": NOTE.format(p["id"]) + p["note"]} for p in PROPS if os.path.exists(os.path.join(V, "mc/checks", p["id"] + ".py"))],
           "not_applicable": [{"property": p["id"], "reason": "no check built yet"} for p in PROPS if not os.path.exists(os.path.join(V, "mc/checks", p["id"] + ".py"))],
           "notes": "No hooks in /repo. Checks import the package straight from /repo's working tree; known_findings.txt lists repaired and recorded defects; DESIGN.md explains each check."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(PROPS), "properties")

# ---- DESIGN.md
exec(open(os.path.join(V, "mc", "design_props.py"), encoding="utf-8").read())
costs = os.path.join(V, "mc", "cost.json")
costs = json.load(open(costs)) if os.path.exists(costs) else {}
out = [open(os.path.join(V, "mc", "design_head.md"), encoding="utf-8").read()]
for p in PROPS:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n\n{p['statement']}\n\n"
               f"* How: {D[i]}\n* Enumerated: {p['text']}.\n* Why tests cannot settle it: {p['why']}\n"
               + (f"* Limits: {p['note']}\n" if p["note"] else "")
               + "* Anchored in: " + ", ".join(f"`{f}`" for f in p["files"]) + ".\n"
               + (f"* Cost (quick): {costs[i]['traces']:,} executions, {costs[i]['transitions']:,} compared observations, {costs[i]['wall']} s" + (f"; thorough: {costs[i]['t_traces']:,} executions, {costs[i]['t_wall']} s" if "t_wall" in costs[i] else "") + ".\n" if i in costs else ""))
out.append(open(os.path.join(V, "mc", "design_tail.md"), encoding="utf-8").read())
seeds = os.path.join(V, "seeded")
rows = []
notes = json.load(open(os.path.join(V, "mc", "seeds.json"))) if os.path.exists(os.path.join(V, "mc", "seeds.json")) else {}
for s in sorted(os.listdir(seeds)):
    m = json.load(open(os.path.join(seeds, s, "meta.json")))
    rows.append((m["property"], s, m["needs"], notes.get(s, "caught")))
out.append("| property | planted bug | needs | result |\n|---|---|---|---|\n" + "".join(f"| {a} | {b} | {c} | {d} |\n" for a, b, c, d in sorted(rows)))
open(os.path.join(V, "DESIGN.md"), "w", encoding="utf-8").write("\n".join(out))
