"""Development tool: try a planted bug in a scratch copy of /repo.

usage: trybug.py ID            (expects /verif/seeded/ID/{patch.diff,demo.sh,meta.json})
Confirms: patch applies, touches only original lines, stable tests pass, demo 0 clean /
non-zero patched, and tells whether the property's quick check catches it.
options: --notest (skip the stable tests)
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "83d1d0b"


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, **(env or {}))
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, timeout=timeout, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def main(bid, notest):
    d = os.path.join(V, "seeded", bid)
    meta = json.load(open(d + "/meta.json"))
    scratch = "/tmp/sb_" + bid
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.copytree(os.environ.get("VT_REPO_SRC", "/repo"), scratch + "/repo", symlinks=True)
    shutil.copytree(d, scratch + "/demo")
    R = scratch + "/repo"
    res = {"id": bid, "property": meta["property"]}
    try:
        env = {"PYTHONPATH": R, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
               "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "VT_REPO": R,
               "PYTHONHASHSEED": "0", "MPLCONFIGDIR": "/opt/vp/mpl"}
        rc, out = sh("bash %s/demo/demo.sh" % scratch, R, env, 300)
        res["demo_clean"] = rc
        if rc:
            res["demo_clean_out"] = out[-1500:]
        rc, out = sh("git apply %s/patch.diff" % d, R)
        res["applies"] = rc == 0
        if rc:
            print(out)
        # original lines only
        rc, out = sh("git diff -U0 HEAD", R)
        bad = []
        f = None
        for line in out.splitlines():
            if line.startswith("--- a/"):
                f = line[6:]
            if line.startswith("@@"):
                a = line.split()[1][1:].split(",")
                n = int(a[1]) if len(a) > 1 else 1
                for k in range(int(a[0]), int(a[0]) + n):
                    _, b = sh("git blame -l -s -L%d,%d HEAD -- %s" % (k, k, f), R)
                    _, base = sh("git merge-base --is-ancestor %s %s; echo $?" %
                                 (b.split()[0].lstrip("^"), BASE), R)
                    if base.strip() != "0":
                        bad.append((f, k))
        res["non_original_lines"] = bad
        rc, out = sh("bash %s/demo/demo.sh" % scratch, R, env, 300)
        res["demo_patched"] = rc
        res["demo_out"] = out[-300:]
        rc, out = sh("%s/check %s --no-evidence" % (V, meta["property"]), V,
                     dict(env, VERIF_SEED="1", VERIF_TIER="quick"))
        res["check_rc"] = rc
        res["caught"] = rc == 1 and ("VIOLATION property=" + meta["property"]) in out
        if not res["caught"]:
            res["check_out"] = out[-600:]
        else:
            res["first"] = [l for l in out.splitlines() if "VIOLATION" in l or "oracle" in l][:2]
        if not notest:
            T = "test/test_tutorials.py::test_tutorial"
            A = "tutorials/approximation"
            rc, out = sh(PY + " -m pytest -q -p no:cacheprovider -n 8 --timeout=400 -W ignore "
                         "-p randomly --randomly-seed=0 --randomly-dont-reorganize "
                         '--deselect "%s[%s/tutorial_tensor_learning_tensorized_function_learning.py]" '
                         '--deselect "%s[%s/tutorial_tensor_learning_TreeBasedTensorDensityLearning.py]" '
                         '--deselect "%s[%s/tutorial_tensor_learning_digits_recognition.py]" '
                         "--junitxml=%s/r.xml test" % (T, A, T, A, T, A, scratch), R, env)
            import xml.etree.ElementTree as E
            ok, failed = set(), set()
            for tc in E.parse(scratch + "/r.xml").getroot().iter("testcase"):
                n = tc.get("classname") + "::" + tc.get("name")
                (failed if tc.find("failure") is not None or tc.find("error") is not None else ok).add(n)
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            res["stable_failed"] = sorted(stable - ok)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    res["OK"] = (res.get("demo_clean") == 0 and res.get("applies") and not res["non_original_lines"]
                 and res.get("demo_patched") not in (0, 124) and (notest or not res["stable_failed"]))
    print(json.dumps(res, indent=1))
    return res


if __name__ == "__main__":
    notest = "--notest" in sys.argv
    rs = [main(a, notest) for a in sys.argv[1:] if not a.startswith("--")]
    print("\n".join("%s %s OK=%s caught=%s" % (r["id"], r["property"], r["OK"], r.get("caught")) for r in rs))
