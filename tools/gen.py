"""Write properties.jsonl and MANIFEST.json from tools/props.toml (one table per property); only properties whose check exists are claimed."""
import json
import os
import tomllib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, "tools", "props.toml"), "rb") as f:
    src = tomllib.load(f)

lines, checks = [], []
for pid, p in src["P"].items():
    assert len(p["title"]) <= 80, (pid, len(p["title"]))
    assert p["statement"].count(". ") <= 2, pid
    if not os.path.exists(os.path.join(ROOT, "vk", "props", f"{pid.lower()}.py")):
        print("no check:", pid)
        continue
    lines.append({
        "id": pid, "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": ["src/DLMS_SPODES/" + f for f in p["files"]],
                    "mechanism": [{"name": n, "where": "src/DLMS_SPODES/" + w} for n, w in p["mech"]],
                    "observe_at": p.get("observe", []), "hook_needed": None},
    })
    checks.append({
        "property": pid,
        "quick_cmd": f"VERIF_TIER=quick ./check {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {pid}",
        "technique": "runtime monitoring: " + p["tech"],
        "level": "exploration",
        "level_note": p.get("note", "Sampled executions; held on what was generated, with the counts in the evidence file."),
    })
with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
    for x in lines:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "chmod +x ./check && /opt/venv/bin/python -B tools/selftest.py",
       "checks": checks,
       "not_applicable": [{"property": k, "reason": v} for k, v in src.get("NA", {}).items()]}
with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "checks")
