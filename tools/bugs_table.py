"""Rewrites section 8 of DESIGN.md (the table of planted bugs) from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "h01": "missed at first; caught since attributes of the same local name are generated (campaign `foreign`)",
    "h04": "missed at first; caught since the distinct texts of H04 may differ in white space, case and length only",
    "h06": "missed at first; caught since values are composed of several pieces with a leading scheme",
}
rows = []
for d in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {NOTE.get(d.split('-')[0], '')} |")
p = f"{V}/DESIGN.md"
s = open(p).read().split("\n## 8. ")[0].rstrip("\n")
s += "\n\n## 8. Catch table\n\n"
s += "Every bug below is caught by the quick check of the property it names (VIOLATION, exit 1), and its demo fails with the\npatch and passes without. Written by `tools/bugs_table.py`.\n\n"
s += "| bug | property | needs | breaks | remark |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n"
s += ("\nOne more, `b04-rematch-in-equal-subtree` (C04), was planted and later removed: since the repair b4b34e2 (matching goes\n"
      "top-down by height) the change it makes no longer shows, its own demo passes with the patch, and C04 is quiet on it.\n")
open(p, "w").write(s)
