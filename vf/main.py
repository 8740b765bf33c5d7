"""Check driver:  main.py <property> [quick|thorough]   |   main.py --replay FILE

Exit 0 held, 1 violated (with a VIOLATION line), 3 inconclusive."""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = os.environ.get("VF_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("VF_REPO", "/repo")
KNOWN = os.path.join(ROOT, "known_findings.json")
MAXPAR = int(os.environ.get("VF_JOBS", "7"))


def env_for(scratch):
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTEST")}
    e.update(MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(scratch, "mpl"), CUDA_VISIBLE_DEVICES="",
             TF_CPP_MIN_LOG_LEVEL="3", JAX_PLATFORMS="cpu", JAX_ENABLE_X64="1", PYTHONDONTWRITEBYTECODE="1",
             PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             TF_NUM_INTRAOP_THREADS="1", TF_NUM_INTEROP_THREADS="1", TF_ENABLE_ONEDNN_OPTS="0",
             PYTHONPATH=REPO + os.pathsep + ROOT, TMPDIR=scratch, HOME=scratch)
    return e


def groups_of(prop):
    # GROUPS is listed textually so that the driver needs no heavy imports
    meta = json.load(open(os.path.join(HERE, "groups.json")))
    return meta[prop]


def run(prop, tier, seed, only_group=None, only_case=None, quiet=False):
    t0 = time.time()
    meta = groups_of(prop)
    budget = meta.get("budget_quick", 100) if tier == "quick" else meta.get("budget_thorough", 600)
    hard = budget + 180
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    os.makedirs(os.path.join(scratch, "mpl"))
    env = env_for(scratch)
    env["VERIF_TIER"] = tier
    pend = [g for g in meta["groups"] if only_group in (None, g)]
    running, results, errors = {}, [], []
    try:
        while pend or running:
            while pend and len(running) < MAXPAR:
                g = pend.pop(0)
                out = os.path.join(scratch, g + ".json")
                log = open(os.path.join(scratch, g + ".log"), "w")
                p = subprocess.Popen([PY, "-X", "faulthandler", "-m", "vf.worker", prop, g, tier, str(seed),
                                      str(budget), out, only_case or "-"], env=env, cwd=scratch,
                                     stdout=log, stderr=subprocess.STDOUT)
                running[g] = (p, out, log, time.time())
            time.sleep(0.1)
            for g in list(running):
                p, out, log, ts = running[g]
                rc = p.poll()
                if rc is None:
                    if time.time() - ts > hard:
                        p.kill()
                        p.wait()
                        errors.append("%s: watchdog after %.0f s" % (g, hard))
                        running.pop(g)
                    continue
                log.close()
                running.pop(g)
                if rc == 0 and os.path.exists(out):
                    results.append(json.load(open(out)))
                else:
                    tail = open(log.name, errors="replace").read()[-2500:]
                    errors.append("%s: worker exit %s\n%s" % (g, rc, tail))
    finally:
        for g in running:
            running[g][0].kill()
        shutil.rmtree(scratch, ignore_errors=True)
    return meta, results, errors, time.time() - t0


def load_known():
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN))["findings"] if k.get("status") == "open"]


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        v = json.load(open(sys.argv[2]))
        meta, results, errors, _ = run(v["property"], v["tier"], v["seed"], v["group"], v["case"])
        bad = [x for r in results for x in r["violations"]]
        for x in bad:
            print(json.dumps(x, indent=1))
        for r in results:
            errors += r["errors"]
        if bad:
            print("VIOLATION property=%s replay=%s" % (v["property"], sys.argv[2]))
            sys.exit(1)
        for e in errors:
            print("ERROR", e)
        sys.exit(3 if errors else 0)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only_group = os.environ.get("VF_GROUP") or None
    meta, results, errors, wall = run(prop, tier, seed, only_group)
    viol, calls, oracles, feats, distinct, samples, dev = [], {}, {}, {}, set(), [], {}
    evals = skips = 0
    for r in results:
        viol += r["violations"]
        errors += r["errors"]
        evals += r["evals"]
        skips += r["skips"]
        for d, s in ((calls, r["calls"]), (oracles, r["oracles"]), (feats, r["features"])):
            for k, x in s.items():
                d[k] = d.get(k, 0) + x
        for k, x in r["max_dev_over_tol"].items():
            dev[k] = max(dev.get(k, 0), x)
        distinct |= {r["group"] + ":" + s for s in r["distinct"]}
        samples += r["samples"]
        if r["evals"] == 0 and not r["violations"]:
            errors.append("%s: no case evaluated" % r["group"])
        if r["oracles"] == {} and not r["violations"]:
            errors.append("%s: no oracle reached" % r["group"])
    if only_group is None:
        for need in meta.get("must_reach", []):
            if not (calls.get(need) or oracles.get(need) or feats.get(need)) and not viol:
                errors.append("monitor %r never reached" % need)
    known = load_known()
    fresh, hit = [], {}
    for v in viol:
        for k in known:
            if k["property"] == prop and re.fullmatch(k["monitor"], v["monitor"]) and re.search(k["message"], v["message"]):
                hit.setdefault(k["id"], k)
                break
        else:
            fresh.append(v)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=meta["rule"],
                            samples=samples[:12], skipped_out_of_domain=skips,
                            observed_calls=calls, oracle_evaluations=oracles, features=feats,
                            max_deviation_over_tolerance=dev,
                            groups={r["group"]: dict(evaluations=r["evals"], wall_s=round(r["wall_s"], 1)) for r in results},
                            inconclusive=errors[:5]),
              assumptions=meta.get("assumptions", []), wall_s=round(wall, 2), violations=len(fresh))
    evd = os.path.join(ROOT, "evidence")
    os.makedirs(evd, exist_ok=True)
    if only_group is None:
        with open(os.path.join(evd, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for k in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if fresh:
        rd = os.path.join(evd, "replay")
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(fresh[:10]):
            path = os.path.join(rd, "%s-%s-%s-%s-%d.json" % (prop, v["group"], tier, v["case"], i))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("  %s/%s [%s] %s %s" % (v["group"], v["case"], v["monitor"], v["message"], json.dumps(v["desc"])[:300]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    for e in errors:
        print("INCONCLUSIVE", e)
    if errors:
        sys.exit(3)
    print("HELD property=%s tier=%s seed=%d cases=%d distinct=%d oracles=%d calls=%d wall=%.1fs" % (
        prop, tier, seed, evals, len(distinct), sum(oracles.values()), sum(calls.values()), wall))


if __name__ == "__main__":
    main()
