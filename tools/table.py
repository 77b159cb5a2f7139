"""Fill the table of seeded changes in DESIGN.md from seeded/*/meta.json and a log of tools/runseeded.py."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for f in sys.argv[1:]:
    for line in open(f, encoding="utf-8", errors="replace"):
        m = re.match(r"(\S+) +(C\d\d) rc=(\d+)", line)
        if m:
            caught.setdefault(m.group(1), {})[m.group(2)] = int(m.group(3))
rows = ["| change | needs | caught by |", "|--------|-------|-----------|"]
for b in sorted(os.listdir(HERE + "/seeded")):
    meta = json.load(open("%s/seeded/%s/meta.json" % (HERE, b)))
    c = caught.get(b, {})
    by = ", ".join(p for p in sorted(c) if c[p] == 1) or ("missed" if c else "(not run)")
    rows.append("| %s | %s | %s |" % (b, meta["needs"].replace("|", "/"), by))
p = HERE + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeded table -->.*?<!-- end -->", lambda m: "<!-- seeded table -->\n%s\n<!-- end -->" % "\n".join(rows), s, flags=re.S)
open(p, "w").write(s)
print(sum(1 for b in caught if 1 in caught[b].values()), "caught of", len(caught))
