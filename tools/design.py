"""Rewrite the generated part of DESIGN.md (per property, findings, planted changes) from props.toml, the checks and the recorded findings."""
import ast, glob, json, os, tomllib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- generated by tools/design.py from here on -->\n"
src = tomllib.load(open(os.path.join(ROOT, "tools", "props.toml"), "rb"))
kf = json.load(open(os.path.join(ROOT, "known_findings.json"), encoding="utf-8"))
out = [MARK, "\n## The properties, one by one\n\n",
       "Workload = what is generated and the bounds of it (quick tier; the thorough tier draws about twelve times as many cases from the same "
       "generators, or all of a finite set). Every check takes between one second and half a minute in the quick tier, up to some minutes in the thorough tier, on one core.\n"]
for pid, p in src["P"].items():
    f = os.path.join(ROOT, "vk", "props", pid.lower() + ".py")
    if not os.path.exists(f):
        continue
    tree = ast.parse(open(f, encoding="utf-8").read())
    rule = next((ast.literal_eval(n.value) for n in tree.body if isinstance(n, ast.Assign) and n.targets[0].id == "RULE"), "")
    mech = sorted({n.args[k].value for n in ast.walk(tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("eq", "check", "rejects", "guard")
                   for k in (0, 1, 2) if k < len(n.args) and isinstance(n.args[k], ast.Constant) and isinstance(n.args[k].value, str) and k == {"eq": 2, "check": 1, "rejects": 1, "guard": 0}[n.func.attr]})
    out.append(f"\n### {pid}. {p['title']}\n\n")
    out.append(f"* Over: {', '.join(p['over'])} - {p['quant']}.\n* Monitored: {'; '.join(p.get('observe', []))}.\n* Oracle: {p['tech']}; {len(mech)} named monitors ({', '.join(mech[:14])}{', ...' if len(mech) > 14 else ''}).\n")
    out.append(f"* Workload: {rule}\n* Why tests do not settle it: {p['why']}\n")
    if p.get("note"):
        out.append(f"* Bounds: {p['note']}\n")
    here = [k for k in kf["open"] if k["property"] == pid]
    n = sum(f"property={pid} " in x for x in kf["fixed"])
    out.append(f"* Found here: {n} defect{'s' * (n != 1)} repaired" + (", recorded: " + ", ".join(k["key"] for k in here) if here else "") + ".\n")
if src.get("NA"):
    out.append("\n## Not applicable\n\n" + "".join(f"* {k}: {v}\n" for k, v in src["NA"].items()))
out.append("\n## Findings\n\nRecorded, not repaired (each has a probe that prints its KNOWN-FINDING line while it still fails):\n\n")
out += [f"* {k['property']} `{k['key']}`: {k['what']}\n" for k in kf["open"]]
out.append(f"\nRepaired in /repo, one `fix:` commit each ({len(kf['fixed'])}):\n\n")
out += [f"* {x.removeprefix('fixed: property=')}\n" for x in kf["fixed"]]
out.append("\n## Planted changes\n\nEach was written from the text of its property, confirmed with its demonstration, and then run against the checks.\n\n| change | property | breaks | needs | caught by |\n|---|---|---|---|---|\n")
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json"), encoding="utf-8"))
    row = [os.path.basename(d), m["property"], m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])]
    out.append("| " + " | ".join(str(x).replace("|", "/").replace("\n", " ") for x in row) + " |\n")
path = os.path.join(ROOT, "DESIGN.md")
head = open(path, encoding="utf-8").read().split(MARK)[0].rstrip("\n") + "\n\n"
open(path, "w", encoding="utf-8").write(head + "".join(out))
