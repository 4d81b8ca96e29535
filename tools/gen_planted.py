"""Writes the table of planted bugs at the end of DESIGN.md (which check catches which is recorded in CAUGHT below)."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = ()      # ids of planted bugs that no check catches
path = os.path.join(HERE, "DESIGN.md")
text = open(path).read()
mark = "<!-- planted bugs -->\n"
head = text.split(mark)[0]
rows = ["| planted bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    name = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |" % (name, m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|"), "none" if name in MISSED else m["property"]))
open(path, "w").write(head + mark + "\n".join(rows) + "\n")
