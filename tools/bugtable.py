# writes the table of planted bugs at the end of DESIGN.md. "missed" lists bugs that the own check does not report
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set()
rows = []
for n in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, n)))
    rows.append((m["property"], n, "no" if n in missed else "yes", m["needs"].replace("|", "/")))
rows.sort()
p = V + "/DESIGN.md"
s = open(p).read()
i = s.index("Written by `tools/bugtable.py`.") + len("Written by `tools/bugtable.py`.")
s = s[:i] + "\n\n| property | bug | caught | needs |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % r for r in rows)
open(p, "w").write(s)
