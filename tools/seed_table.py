"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json (development only)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
new = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = s.replace("@@SEEDS@@", new) if "@@SEEDS@@" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: new, s, flags=re.S)
open(p, "w").write(s)
