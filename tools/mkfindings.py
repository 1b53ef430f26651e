"""known_findings.json: the repaired defects come from the git log of /repo
('fix:' commits, property in KEYS below), the known ones are listed here."""
import json
import os
import subprocess

# subject of the fix commit -> property
FIXED = json.load(open("tools/fixed.json"))
KNOWN = json.load(open("tools/known.json"))

log = subprocess.check_output(["git", "-C", os.environ.get("VT_REPO", "/repo"), "log", "--reverse", "--format=%h %s"], text=True)
out = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        s = s[5:]
        pid = FIXED[s]
        out.append({"property": pid, "key": "fix-%s" % h, "status": "fixed", "commit": h,
                    "what": s,
                    "entry": "fixed: property=%s %s %s" % (pid, h, s)})
out += [dict(k, status="known") for k in KNOWN]
with open("known_findings.json", "w") as f:
    json.dump({"findings": out}, f, indent=1)
    f.write("\n")
print(len(out), "findings")
