"""addknown.py PROP KEY WHAT: record an unrepaired genuine defect (development tool)."""
import json
import subprocess
import sys

L = json.load(open("tools/known.json"))
L = [x for x in L if x["key"] != sys.argv[2]]
L.append({"property": sys.argv[1], "key": sys.argv[2], "what": sys.argv[3]})
json.dump(L, open("tools/known.json", "w"), indent=1)
subprocess.check_call([sys.executable, "tools/mkfindings.py"])
