"""Rewrite the table of planted bugs in DESIGN.md from logs of `plant.py try`: caught_table.py LOG..."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {m[0]: m[1:] for m in re.findall(r"^\| (\S+) \| (C\d+) \| (.*) \|$", open(os.path.join(V, "DESIGN.md")).read(), re.M)}
for log in sys.argv[1:]:
    for l in open(log):
        m = re.match(r"(CAUGHT|MISSED) (\S+) (C\d+) rc \d+ \|(.*)", l)
        if m:
            k = re.search(r"C\d+ (\w+):\d+ \[([\w-]+)\]", m[4])
            rows[m[2]] = (m[3], f"`{k[1]}` / {k[2]}" if k else m[1].lower())
ids = sorted(os.listdir(os.path.join(V, "seeded")))
t = ["<!-- planted bugs: tools/caught_table.py -->", "| planted bug | property | caught by (scenario / violation) |", "| --- | --- | --- |"]
t += ["| %s | %s | %s |" % (i, *rows.get(i, (json.load(open(f"{V}/seeded/{i}/meta.json"))["property"], "not run"))) for i in ids]
t += ["<!-- end -->"]
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
t = "\n".join(t)
if "@@TABLE@@" in s:
    s = s.replace("@@TABLE@@", t)
else:
    s = re.sub(r"<!-- planted bugs.*?<!-- end -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
