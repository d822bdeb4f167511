"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, glob, os
rows = []
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(d)); rows.append((m["property"], os.path.basename(os.path.dirname(d)), m["what_it_breaks"], m["needs"]))
s = open("/verif/DESIGN.md").read(); i = s.index("<!-- plants -->")
s = s[:i] + "<!-- plants -->\n\nEach is caught by the quick check of the property it names.\n\n| property | bug | what it does | what it takes |\n|---|---|---|---|\n"
for p, n, w, k in sorted(rows):
    s += f"| {p} | {n} | {w} | {k} |\n".replace("\n |", " |")
open("/verif/DESIGN.md", "w").write(s)
print(len(rows))
