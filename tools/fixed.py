"""fixed entries of known_findings.json: property -> subject prefix of the fix commit in /repo"""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {"687552f": "C40", "2e606f3": "C14", "655c47a": "C01", "81d62c9": "C10", "7451eab": "C02", "abe0645": "C07", "bdd4ab4": "C06", "c376e8d": "C09",
       "2566a54": "C05", "471088d": "C07", "c6f2e3f": "C07", "1aee993": "C08", "5ece7f1": "C35", "1deef9f": "C14", "11d8b94": "C14", "b6a58fe": "C01",
       "160aa37": "C30", "a159490": "C14", "f5111a7": "C30", "e16b818": "C07", "c50cec7": "C15", "df9d7d5": "C21", "01e410a": "C12", "b8a4170": "C03",
       "bd1cf04": "C23", "315bc66": "C24", "9ff2a75": "C14", "2ed50fa": "C09", "af4bcde": "C11", "6e47055": "C08",
       "c328969": "C19", "d5ed8dd": "C14", "7f888c8": "C11"}
extra = os.path.join(ROOT, "tools", "fixed_extra.json")
if os.path.exists(extra):
    MAP.update(json.load(open(extra)))
p = os.path.join(ROOT, "known_findings.json")
k = json.load(open(p, encoding="utf-8"))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
k["fixed"] = []
for line in log:
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    if h not in MAP:
        print("unmapped", h, s)
        continue
    k["fixed"].append(f"fixed: property={MAP[h]} {h} {s[5:]}")
json.dump(k, open(p, "w", encoding="utf-8"), indent=1, ensure_ascii=False)
