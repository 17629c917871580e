"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | breaks | needs |", "|---|---|---|---|"]
for name in sorted(os.listdir(os.path.join(root, "seeded"))):
    with open(os.path.join(root, "seeded", name, "meta.json")) as f:
        meta = json.load(f)
    rows.append(
        f"| {name} | {meta['property']} | {meta['what_it_breaks']} | {meta['needs']} |"
    )
path = os.path.join(root, "DESIGN.md")
with open(path) as f:
    text = f.read()
table = "\n".join(rows) + "\n"
text = re.sub(r"@@TABLE@@|\| planted bug \|(?:.*\n)*?(?=\n|More than)", lambda m: table + "\n" if m.group(0) == "@@TABLE@@" else table, text)
with open(path, "w") as f:
    f.write(text)
