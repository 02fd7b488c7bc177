"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.setdefault(m["property"], []).append((os.path.basename(d), m["needs"]))
print("| check | planted bug | needs |\n|---|---|---|")
n = 0
for p in sorted(rows):
    for b, w in rows[p]:
        n += 1
        print("| %s | %s | %s |" % (p, b, w.replace("|", "/")))
print("\n%d planted bugs, each caught by the quick tier of the check named in the first column." % n)
