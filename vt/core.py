"""Monitoring harness: seeded workload driver, oracles' verdicts, evidence, replay.

A *scenario* drives the real tensap code on one generated case and lets oracles
(independent reference models written with plain numpy/scipy, or invariants)
judge what was observed.  Verdicts are three-valued: violated (exit 1 with a
replay file), held on what was observed (exit 0), inconclusive (exit 3).
"""
import hashlib
import io
import json
import os
import random
import re
import resource
import signal
import sys
import time
import traceback
import warnings
from collections import Counter

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_LIMIT = 90.0


class Violation(Exception):
    def __init__(self, oracle, msg, info=None):
        super().__init__("%s: %s" % (oracle, msg))
        self.oracle = oracle
        self.msg = msg
        self.info = info or {}


class Skip(Exception):
    """The generated case lies outside the property's precondition."""


class CaseTimeout(BaseException):
    pass


def _short(x, lim=60):
    if isinstance(x, np.ndarray):
        if x.size <= 12:
            return np.array2string(x, precision=6, separator=",").replace("\n", "")
        return "array%s" % (x.shape,)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (list, tuple)):
        return [_short(y) for y in x][:lim]
    if isinstance(x, dict):
        return {str(k): _short(v) for k, v in x.items()}
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return str(x)[:200]


class Ctx:
    """What one case observes: the generator, the oracle counters, the case's
    description (used for the evidence and for the fingerprint)."""

    def __init__(self, prop, scenario, seed, index, tier):
        self.prop, self.scenario, self.index, self.tier = prop, scenario, index, tier
        h = hashlib.sha256(("%s/%s" % (prop, scenario)).encode()).digest()
        self.seed_tuple = [int(seed), int.from_bytes(h[:4], "little"), int(index)]
        self.rng = np.random.default_rng(self.seed_tuple)
        g = np.random.default_rng(self.seed_tuple + [77])
        s = int(g.integers(2**31 - 1))
        np.random.seed(s)
        random.seed(s)
        self.oracles = Counter()
        self.ops = Counter()
        self.desc = {}
        self.is_nontrivial = True
        self.known = []

    # -- generation helpers
    def choice(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def randint(self, a, b):
        """Integer in [a, b]."""
        return int(self.rng.integers(a, b + 1))

    def normal(self, shape, p=0.12):
        """Normal variates, or with probability p integers stored as integers."""
        if self.rng.random() < p:
            z = self.rng.integers(-3, 4, shape)
            return z if np.any(z) else z + 1
        return self.rng.standard_normal(shape)

    def integral(self, x, p=0.12):
        """The points x, or with probability p their integer parts stored as integers."""
        return np.rint(x).astype(int) if self.rng.random() < p else x

    def coin(self, p=0.5):
        return bool(self.rng.random() < p)

    def case(self, **desc):
        self.desc.update({k: _short(v) for k, v in desc.items()})

    def trivial(self):
        self.is_nontrivial = False

    def op(self, name):
        self.ops[name] += 1
        return name

    # -- oracles
    def check(self, oracle, cond, msg="", **info):
        self.oracles[oracle] += 1
        if not bool(cond):
            raise Violation(oracle, msg or "condition does not hold", info)

    def fail(self, oracle, msg, **info):
        self.oracles[oracle] += 1
        raise Violation(oracle, msg, info)

    def close(self, oracle, got, ref, rtol=1e-9, atol=0.0, scale=None, shape=True):
        """got == ref up to rtol * max(|ref|, scale) + atol, same shape, finite."""
        self.oracles[oracle] += 1
        try:
            got = np.asarray(got, dtype=float)
        except Exception:
            raise Violation(oracle, "result is not a numeric array: %r" % (type(got),))
        ref = np.asarray(ref, dtype=float)
        if shape and got.shape != ref.shape:
            raise Violation(
                oracle, "shape %s, expected %s" % (got.shape, ref.shape),
                {"got": _short(got), "ref": _short(ref)})
        if not shape:
            if got.size != ref.size:
                raise Violation(
                    oracle, "size %s, expected %s" % (got.size, ref.size),
                    {"got": _short(got), "ref": _short(ref)})
            got, ref = got.reshape(-1), ref.reshape(-1)
        if got.size == 0:
            return
        s = max(float(np.max(np.abs(ref))), float(scale or 0.0))
        err = float(np.max(np.abs(got - ref)))
        if not err <= rtol * s + atol:
            raise Violation(
                oracle, "max error %.3g exceeds %.3g (scale %.3g)"
                % (err, rtol * s + atol, s),
                {"got": _short(got.reshape(-1)[:12]), "ref": _short(ref.reshape(-1)[:12])})

    def equal(self, oracle, got, ref, msg=""):
        self.oracles[oracle] += 1
        try:
            g, r = np.asarray(got), np.asarray(ref)
            ok = g.shape == r.shape and bool(np.all(g == r))
        except Exception:
            ok = False
        if not ok:
            raise Violation(oracle, "%s got %s, expected %s" % (
                msg, _short(got), _short(ref)))

    def raises(self, oracle, fun, *args, **kwargs):
        self.oracles[oracle] += 1
        try:
            fun(*args, **kwargs)
        except Exception:
            return
        raise Violation(oracle, "call accepted although it must be rejected")

    def finding(self, key, present, what):
        """A probe for a listed known finding: `present` tells whether the
        defect was observed on the specific input of the probe."""
        self.oracles["probe:" + key] += 1
        if present:
            self.known.append([key, what])


class Scenario:
    def __init__(self, fn, quick, thorough=None):
        self.fn, self.name = fn, fn.__name__
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12


REGISTRY = {}

# number of cases, per tier, over the counts written at the scenarios: about ten seconds and some minutes on 8 cores
BOOST = {"C01": (3, 8), "C02": (3, 8), "C03": (1.5, 3), "C04": (3, 8), "C05": (3, 8), "C06": (1, 1), "C07": (8, 25),
         "C08": (8, 25), "C09": (8, 25), "C10": (8, 25), "C11": (8, 25), "C12": (2, 6), "C13": (6, 20), "C14": (4, 12),
         "C15": (4, 12), "C16": (3, 5), "C17": (8, 25), "C18": (4, 10), "C19": (6, 20), "C20": (1, 2), "C21": (6, 20),
         "C22": (2, 6), "C23": (6, 20), "C24": (8, 25)}


class Prop:
    def __init__(self, pid, title, rule):
        self.pid, self.title, self.rule = pid, title, rule
        self.scenarios = []
        REGISTRY[pid] = self

    def scenario(self, quick, thorough=None):
        def deco(fn):
            self.scenarios.append(Scenario(fn, quick, thorough))
            return fn
        return deco


def _alarm(signum, frame):
    raise CaseTimeout()


# VT_REPO is for development only (trying a planted bug in a scratch copy);
# the registered checks always run against /repo
REPO = os.environ.get("VT_REPO", "/repo")


def import_tensap():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    out = sys.stdout
    sys.stdout = io.StringIO()
    try:
        import tensap
    finally:
        sys.stdout = out
    f = os.path.realpath(tensap.__file__)
    if not f.startswith(REPO + "/tensap/"):
        raise ImportError("tensap imported from %s" % f)
    return tensap


def run_case(prop, scen, seed, index, tier):
    """Run one case; returns a plain dict (verdict and what was observed)."""
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    ctx = Ctx(prop.pid, scen.name, seed, index, tier)
    res = {"scenario": scen.name, "index": index, "verdict": "held"}
    out = sys.stdout
    sys.stdout = io.StringIO()
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    t0 = time.time()
    try:
        scen.fn(ctx)
    except Skip as e:
        res["verdict"] = "skipped"
        res["why"] = str(e)
    except Violation as e:
        res.update(verdict="violated", oracle=e.oracle, msg=str(e), info=_short(e.info))
    except CaseTimeout:
        res.update(verdict="violated", oracle="termination",
                   msg="no answer after %g s of CPU time" % CASE_CPU_LIMIT, info={})
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        frames = ["%s:%d %s" % (os.path.relpath(f.filename, "/"), f.lineno, f.name)
                  for f in tb[-6:]]
        inside = any(f.filename.startswith(REPO + "/") for f in tb)
        res.update(verdict="violated",
                   oracle="exception" if inside else "unusable-result",
                   msg="%s: %s" % (type(e).__name__, str(e)[:300]),
                   info={"frames": frames})
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        sys.stdout = out
    res["wall"] = time.time() - t0
    res["desc"] = ctx.desc
    res["oracles"] = dict(ctx.oracles)
    res["ops"] = dict(ctx.ops)
    res["known"] = ctx.known
    res["nontrivial"] = bool(ctx.is_nontrivial and res["verdict"] != "skipped"
                             and ctx.oracles)
    res["fp"] = hashlib.sha256(
        json.dumps([scen.name, ctx.desc], sort_keys=True, default=str).encode()
    ).hexdigest()[:16]
    return res


_PROP = None


def _worker_init(pid):
    global _PROP
    try:
        lim = 6 * 2**30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    _PROP = REGISTRY[pid]


def _worker(job):
    sname, idxs, seed, tier, deadline = job
    scen = [s for s in _PROP.scenarios if s.name == sname][0]
    out = []
    for i in idxs:
        if time.time() > deadline:
            out.append({"scenario": sname, "index": i, "verdict": "unrun"})
            continue
        out.append(run_case(_PROP, scen, seed, i, tier))
    return out


def load_known():
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    with open(f) as fid:
        return json.load(fid)["findings"]


def main(argv):
    import argparse
    import importlib
    from concurrent.futures import ProcessPoolExecutor
    from concurrent.futures.process import BrokenProcessPool

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--scenario")
    ap.add_argument("--index", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--all-violations", action="store_true")
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    try:
        import_tensap()
    except Exception:
        traceback.print_exc()
        print("INCONCLUSIVE: tensap does not import from %s" % REPO)
        return 3
    importlib.import_module("vt.props.%s" % a.prop.lower())
    prop = REGISTRY[a.prop]

    if a.replay or a.index is not None:
        if a.replay:
            with open(a.replay) as fid:
                r = json.load(fid)
            a.scenario, a.index, a.seed, tier = (
                r["scenario"], r["index"], r["seed"], r["tier"])
        scen = [s for s in prop.scenarios if s.name == a.scenario][0]
        res = run_case(prop, scen, a.seed, a.index, tier)
        print(json.dumps(res, indent=1, default=str))
        return 1 if res["verdict"] == "violated" else 0

    budget = 780.0 if tier == "thorough" else 420.0
    deadline = t0 + budget
    jobs = []
    for s in prop.scenarios:
        if a.scenario and s.name != a.scenario:
            continue
        q, t = BOOST.get(a.prop, (1, 1))
        n = int(round(s.quick * q if tier == "quick" else s.thorough * t))
        chunk = max(1, min(40, n // (2 * a.jobs) or 1))
        for k in range(0, n, chunk):
            jobs.append((s.name, list(range(k, min(n, k + chunk))), a.seed, tier, deadline))
    # heavy scenarios are spread over the run
    random.Random(0).shuffle(jobs)
    results = []
    try:
        if a.jobs == 1:
            _worker_init(a.prop)
            for j in jobs:
                results.extend(_worker(j))
        else:
            with ProcessPoolExecutor(a.jobs, initializer=_worker_init,
                                     initargs=(a.prop,)) as ex:
                for r in ex.map(_worker, jobs):
                    results.extend(r)
    except BrokenProcessPool:
        print("INCONCLUSIVE: a worker process died (memory?)")
        return 3

    results.sort(key=lambda r: (r["scenario"], r["index"]))
    done = [r for r in results if r["verdict"] in ("held", "violated")]
    viol = [r for r in results if r["verdict"] == "violated"]
    skipped = [r for r in results if r["verdict"] == "skipped"]
    unrun = [r for r in results if r["verdict"] == "unrun"]
    oracles, ops, per = Counter(), Counter(), {}
    for r in done:
        oracles.update(r["oracles"])
        ops.update(r["ops"])
    for r in results:
        per.setdefault(r["scenario"], Counter())[r["verdict"]] += 1
    fps = {r["fp"] for r in done if r["nontrivial"]}
    samples, seen = [], Counter()
    for r in done:
        if r["nontrivial"] and seen[r["scenario"]] < 2:
            seen[r["scenario"]] += 1
            samples.append({"scenario": r["scenario"], "index": r["index"],
                            "case": r["desc"], "oracle_evaluations": sum(r["oracles"].values())})

    # known findings (probes) and violations
    known = load_known()
    listed = {(k["property"], k["key"]) for k in known if k["status"] == "known"}
    shown, nviol = set(), 0
    for r in done:
        for key, what in r["known"]:
            if (a.prop, key) in listed:
                if key not in shown:
                    shown.add(key)
                    print("KNOWN-FINDING: property=%s %s: %s" % (a.prop, key, what))
            else:
                viol.append(dict(r, verdict="violated", oracle="probe:" + key,
                                 msg=what, info={}))
    nviol = len(viol)
    rdir = os.path.join(VERIF, "replays", a.prop)
    groups = {}
    for r in viol:
        groups.setdefault((r["scenario"], r["oracle"]), []).append(r)
    shown_groups = list(groups.items())
    if not a.all_violations:
        shown_groups = shown_groups[:6]
    for (sname, oracle), rs in shown_groups:
        r = rs[0]
        os.makedirs(rdir, exist_ok=True)
        tag = re.sub(r"[^A-Za-z0-9_.-]", "_", "%s-%s-s%d-i%d" % (
            sname, oracle, a.seed, r["index"]))[:120]
        path = os.path.join(rdir, tag + ".json")
        with open(path, "w") as fid:
            json.dump({"property": a.prop, "scenario": sname, "index": r["index"],
                       "seed": a.seed, "tier": tier, "oracle": oracle,
                       "message": r["msg"], "info": r.get("info"), "case": r["desc"],
                       "occurrences": len(rs),
                       "replay_cmd": "./check %s --replay %s" % (a.prop, path)},
                      fid, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        print("  scenario=%s oracle=%s cases=%d: %s" % (sname, oracle, len(rs), r["msg"][:400]))
        if r.get("info"):
            print("  info=%s" % json.dumps(r["info"], default=str)[:700])
        print("  case=%s" % json.dumps(r["desc"], default=str)[:500])

    wall = time.time() - t0
    if not a.no_evidence and not a.scenario:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": a.prop, "tier": tier, "seed": a.seed, "level": "exploration",
            "coverage": {
                "evaluations": len(done),
                "distinct_nontrivial": len(fps),
                "rule": prop.rule,
                "samples": samples,
                "oracle_evaluations": dict(sorted(oracles.items())),
                "observed_operations": dict(sorted(ops.items())),
                "scenarios": {k: dict(v) for k, v in sorted(per.items())},
                "out_of_precondition": len(skipped),
                "not_run_for_lack_of_time": len(unrun),
            },
            "assumptions": [
                "IEEE double arithmetic; the reference values are computed with numpy/scipy",
                "single-threaded BLAS; every random choice derives from VERIF_SEED",
            ],
            "wall_s": round(wall, 2),
            "violations": nviol,
        }
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as fid:
            json.dump(ev, fid, indent=1, default=str)
            fid.write("\n")
    print("%s %s: %d cases (%d distinct non-trivial), %d oracle evaluations, %d skipped, "
          "%d unrun, %d violations, %.1f s" % (
              a.prop, tier, len(done), len(fps), sum(oracles.values()), len(skipped),
              len(unrun), nviol, wall))
    if nviol:
        return 1
    starved = [s for s, c in per.items() if not c["held"]]
    if starved or not done or sum(oracles.values()) == 0 or (
            tier == "quick" and unrun):
        print("INCONCLUSIVE: nothing (or too little) observed: %s" % starved)
        return 3
    return 0
