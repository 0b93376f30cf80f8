"""Rewrite the table of seeded changes in DESIGN.md from seeded/*/meta.json (an authoring aid; no check reads seeded/)."""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for path in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    with open(path, encoding="utf8") as f:
        meta = json.load(f)
    name = os.path.basename(os.path.dirname(path))
    by.setdefault(meta["property"], []).append(f"`{name}` ({meta['needs'].rstrip('.')})")
rows = ["| caught by | seeded change (what it needs to show) |", "|---|---|"]
rows += [f"| {p} | " + "; ".join(v).replace("|", "/") + " |" for p, v in sorted(by.items())]
path = os.path.join(ROOT, "DESIGN.md")
with open(path, encoding="utf8") as f:
    text = f.read()
text = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), text, flags=re.S)
with open(path, "w", encoding="utf8") as f:
    f.write(text)
print(sum(len(v) for v in by.values()), "seeds")
