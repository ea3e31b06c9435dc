"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = {}
for m in glob.glob(root + "/seeded/*/meta.json"):
    t.setdefault(json.load(open(m))["property"], []).append(os.path.basename(os.path.dirname(m)))
f = root + "/DESIGN.md"
head, rest = open(f).read().split("\n| | changes |\n|---|---|\n")
tail = rest.split("\n\n", 1)[1] if "\n\n" in rest else ""
open(f, "w").write(head + "\n| | changes |\n|---|---|\n" + "\n".join("| %s | %s |" % (p, ", ".join(sorted(t[p]))) for p in sorted(t)) + "\n" + ("\n" + tail if tail else ""))
