"""Rewrites the table of planted bugs in DESIGN.md section 6 from seeded/*/meta.json."""
import json, os, re
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", d, "meta.json")))
    f = sorted(set(re.findall(r"^\+\+\+ b/(\S+)", open(os.path.join(R, "seeded", d, "patch.diff")).read(), re.M)))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], ", ".join(os.path.basename(x) for x in f), m["needs"].replace("|", "/").replace("\n", " ")))
t = open(os.path.join(R, "DESIGN.md")).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
i, j = t.index(a) + len(a), t.index(b)
open(os.path.join(R, "DESIGN.md"), "w").write(t[:i] + "| change | caught by | file | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + t[j:])
