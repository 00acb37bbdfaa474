"""DESIGN.md from tools/design.md, the metadata of the checks and the planted bugs."""
import glob, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import meta
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
out = ["| id | property | decided by | bounds | quick run |", "|---|---|---|---|---|"]
esc = lambda s: s.replace("|", "\\|")
old = {}
try:
    for l in open(ROOT + "/DESIGN.md"):
        c = l.split(" | ")
        if len(c) == 5 and l.startswith("| "):
            old[c[0][2:]] = c[4].rstrip(" |\n")
except OSError:
    pass
for p in props:
    i = p["id"]
    f = ROOT + "/evidence/%s.json" % i
    run = old.get(i, "")
    if os.path.exists(f):
        e = json.load(open(f))
        if e.get("tier") == "quick":
            run = "%d cases, %d non-trivial, %d s" % (e["coverage"]["evaluations"], e["coverage"]["distinct_nontrivial"], e.get("wall_s", e.get("seconds", 0)) or 0)
    out.append("| %s | %s | %s | %s | %s |" % (i, esc(p["title"]), esc(meta.TECHNIQUE[i]), esc(meta.NOTES.get(i, "")), run))
missed = set(open(ROOT + "/tools/missed_first.txt").read().split())
uncaught = set()
rows = ["| id | property | needs | missed first |", "|---|---|---|---|"]
n = 0
for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f)); n += 1
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], esc(m["needs"]), "yes" if i in missed else ""))
s = open(ROOT + "/tools/design.md").read()
nfix = sum(l.startswith("fixed:") for l in open(ROOT + "/known_findings.txt"))
s = s.replace("{{PROPS}}", "\n".join(out)).replace("{{SEEDED}}", "\n".join(rows)).replace("{{NFIX}}", str(nfix)).replace("{{NSEED}}", str(n))
open(ROOT + "/DESIGN.md", "w").write(s)
