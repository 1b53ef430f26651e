"""Appends the findings and the catch table to DESIGN.md (from tools/design.md)."""
import json
import os
import glob

out = open("tools/design.md").read()
kf = json.load(open("known_findings.json"))["findings"]
out += "## Findings\n\n%d genuine defects were repaired (`fix:` commits in /repo, each listed in known_findings.json with\n" \
       "its property and commit); these are recorded and not repaired:\n\n" % sum(f["status"] == "fixed" for f in kf)
for f in kf:
    if f["status"] != "fixed":
        out += "- **%s** `%s`: %s\n" % (f["property"], f["key"], f["what"])
from collections import Counter
c = Counter(f["property"] for f in kf if f["status"] == "fixed")
out += "\nRepairs per property: " + ", ".join("%s %d" % k for k in sorted(c.items())) + ".\n\n"
out += "## Planted bugs and what catches them\n\nAll were confirmed with `tools/trybug.py` (apply, build, demonstration, stable tests, check).\n\n"
out += "| Bug | Caught by | What it needs |\n|---|---|---|\n"
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    out += "| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"].replace("|", "/"))
if os.path.exists("tools/design_tail.md"):
    out += "\n" + open("tools/design_tail.md").read()
open("DESIGN.md", "w").write(out)
