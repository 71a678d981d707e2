#!/usr/bin/env python3
# Writes SPACES.md from the evidence of the last runs (run all quick checks first).
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["# Explored spaces (quick tier), from evidence/", ""]
for i in range(1, 100):
    p = f"{root}/evidence/C{i:02d}.json"
    if not os.path.exists(p):
        continue
    d = json.load(open(p))
    out.append(f"## C{i:02d}")
    out.append("")
    for s in d["coverage"].get("spaces", []):
        out.append(f"- **{s['space']}** — {s['bound']}")
    out.append("")
open(f"{root}/SPACES.md", "w").write("\n".join(out))
