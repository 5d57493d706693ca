"""Prints the table of planted bugs for DESIGN.md (for the author; no check uses it)."""

import json
import os

ROOT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
rows = []
for d in os.listdir(ROOT):
    with open(os.path.join(ROOT, d, "meta.json")) as f:
        m = json.load(f)
    with open(os.path.join(ROOT, d, "patch.diff")) as f:
        files = sorted({l[6:].strip() for l in f if l.startswith("+++ b/")})
    rows.append((m["property"], d, m["what_it_breaks"], m["needs"], ", ".join(f.removeprefix("pyudunits2/") for f in files)))
print("| caught by | change | in | breaks | needs |")
print("|---|---|---|---|---|")
for r in sorted(rows):
    print(f"| {r[0]} | {r[1]} | {r[4]} | {r[2]} | {r[3]} |")
