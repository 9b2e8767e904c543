"""Puts the results of tools/against.py into DESIGN.md: python3 tools/table.py LOG ... (later logs win)

Results already in the table stay unless a log has a newer one; lines of removed bugs go."""
import json, os, re, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(ROOT, "DESIGN.md")
text = open(path).read()
head, old, tail = re.match(r"(.*<!-- table -->\n)(.*)(<!-- /table -->.*)", text, re.S).groups()
res = {m[0]: m[1:] for m in re.findall(r"^\| (c\d\d\S+) \| (C\d\d) \| ([^|]*?) \|", old, re.M)}
for log in sys.argv[1:]:
    for m in re.findall(r"^(c\d\d\S+) +(C\d\d) (caught|MISSED) +rejected=(\d+|\?)", open(log).read(), re.M):
        res[m[0]] = (m[1], m[3] if m[2] == "caught" else "missed")
rows = ["| planted bug | check | rejected steps | needs |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    meta = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
    p, n = res.get(i, (meta["property"], "not run"))
    rows.append("| %s | %s | %s | %s |" % (i, p, n, meta["needs"].replace("|", "/")))
open(path, "w").write(head + "\n".join(rows) + "\n" + tail)
print(sum(r.count("| not run |") for r in rows), "not run;", sum("| missed |" in r for r in rows), "missed")
