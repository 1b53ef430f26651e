"""Development helper: fix(property, file, message, (old, new)...) edits /repo (or $VT_REPO) and commits."""
import json
import os
import subprocess

R = os.environ.get("VT_REPO", "/repo")
V = os.environ.get("VT_VERIF", "/verif")


def fix(pid, path, msg, *pairs):
    p = R + '/tensap/' + path
    s = open(p).read()
    for a, b in pairs:
        assert s.count(a) == 1, (msg, s.count(a), a)
        s = s.replace(a, b)
    open(p, 'w').write(s)
    subprocess.check_call(['git', '-C', R, 'commit', '-qam', 'fix: ' + msg])
    f = V + '/tools/fixed.json'
    d = json.load(open(f))
    d[msg] = pid
    json.dump(d, open(f, 'w'), indent=1)
    subprocess.check_call('cd %s && python3 tools/mkfindings.py' % V, shell=True)
