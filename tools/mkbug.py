"""Helper used by /tmp scripts: mkbug(id, prop, file, [(old,new)], needs, breaks, demo_python)."""
import json, os, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mkbug(bid, prop, path, edits, needs, breaks, demo):
    tmp = "/tmp/mk_" + bid
    shutil.rmtree(tmp, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", os.environ.get("VT_REPO", "/repo"), tmp])
    if isinstance(path, str):
        edits = [(path, o, n) for o, n in edits]
    for p, o, n in edits:
        f = tmp + "/tensap/" + p
        s = open(f).read()
        assert s.count(o) == 1, (bid, s.count(o), o)
        open(f, "w").write(s.replace(o, n))
    diff = subprocess.check_output(["git", "-C", tmp, "diff"], text=True)
    for f in set(p for p, _, _ in edits):
        base = subprocess.check_output(["git", "-C", tmp, "blame", "-s", "HEAD", "--", "tensap/" + f], text=True).splitlines()
        u = subprocess.check_output(["git", "-C", tmp, "diff", "-U0", "--", "tensap/" + f], text=True)
        for l in u.splitlines():
            if l.startswith("@@"):
                a = l.split()[1][1:].split(",")
                for k in range(int(a[0]), int(a[0]) + (int(a[1]) if len(a) > 1 else 1)):
                    if not base[k - 1].startswith("^"):
                        print("NOT ORIGINAL", bid, base[k - 1])
    shutil.rmtree(tmp)
    d = "%s/seeded/%s" % (V, bid)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write(
        '#!/bin/bash\n# run with cwd /repo; exit 0 when the property holds\n'
        'export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1\n'
        'PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(d + "/meta.json", "w"), indent=1)
