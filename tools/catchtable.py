"""Rewrites the catch table at the end of DESIGN.md from seeded/*/meta.json and the
list of results that tools/plant/catch.sh printed (argument: that file)."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for f in sys.argv[1:]:
    for line in open(f):
        m = re.match(r"(\S+) (C\d\d) rc=(\d+) (\d+)s (.*)", line)
        if m:
            got[m[1]] = f"{m[2]}, {m[4]} s" if m[3] == "1" and "VIOLATION" in m[5] else "missed"
rows = ["| planted bug | property | needs | caught by (time until reported, quick tier) |", "|-|-|-|-|"]
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    i = os.path.basename(d)
    rows.append(f"| {i} | {m['property']} | {m['needs'].replace('|', '/')} | {got.get(i, 'not run')} |")
p = V + "/DESIGN.md"
s = open(p).read()
head = s[:s.index("## 8. Catch table")]
open(p, "w").write(head + "## 8. Catch table\n\n" + "\n".join(rows) + "\n")
