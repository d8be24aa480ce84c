#!/usr/bin/env python3
"""Entry point of every check:   run.py C01 [--tier quick|thorough] [--replay FILE] [--case N]"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable


def plan_of(prop):
    """The literal PLAN of a property module, read without importing the code under test."""
    import ast
    tree = ast.parse(open(os.path.join(VERIF, "props", prop.lower() + ".py")).read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", None) == "PLAN":
            return ast.literal_eval(node.value)
    raise SystemExit("no PLAN for " + prop)


def child_env():
    env = dict(os.environ)
    env.update(PYTHONPATH=os.path.join(REPO, "src") + ":" + VERIF, PYTHONHASHSEED="0",
               PYTHONDONTWRITEBYTECODE="1", TZ="UTC", VERIF_REPO=REPO, PYTHONWARNINGS="ignore")
    env.pop("PYTHONPYCACHEPREFIX", None)
    return env


def shard_main(a):
    sys.path.insert(0, VERIF)
    sys.dont_write_bytecode = True
    import resource
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    import logging
    logging.disable(logging.CRITICAL)
    sys.setrecursionlimit(3000)
    import aaf2
    want = os.path.join(REPO, "src", "aaf2") + os.sep
    assert os.path.abspath(aaf2.__file__).startswith(want), aaf2.__file__
    from vlib import harness
    mod = importlib.import_module("props." + a.prop.lower())
    out = dict(cases=0, counters={}, keys=[], samples=[], violations=[], done=False, capped=False)
    keys = set()
    t0 = time.time()
    total = a.ncases
    for i in range(a.shard, total, a.nshards):
        if time.time() - t0 > a.budget:
            out["capped"] = True
            break
        ctx = harness.run_case(mod, a.tier, a.seed, i)
        out["cases"] += 1
        harness.merge_counts(out["counters"], ctx.counters)
        keys |= ctx.keys
        if len(out["samples"]) < 2:
            out["samples"] += [dict(case=i, sample=s) for s in ctx.samples[:1]]
        for sig, msg, tb in ctx.violations:
            out["violations"].append(dict(case=i, sig=sig, msg=msg, tb=tb,
                                          events=[repr(e)[:400] for e in ctx.events[-60:]]))
        if len(out["violations"]) >= 5:
            break
    out["keys"] = sorted(keys)
    out["done"] = True
    with open(a.out, "w") as f:
        json.dump(out, f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--shard", type=int)
    ap.add_argument("--nshards", type=int)
    ap.add_argument("--ncases", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--out")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.shard is not None:
        return shard_main(a)

    sys.path.insert(0, VERIF)
    sys.dont_write_bytecode = True
    sys.path.insert(1, os.path.join(REPO, "src"))
    meta = plan_of(a.prop)
    if a.replay:
        r = json.load(open(a.replay))
        a.case, a.seed, a.tier = r["case"], r["seed"], r["tier"]
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    rc = 2
    try:
        rc = drive(a, meta, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def drive(a, meta, scratch):
    t0 = time.time()
    env = child_env()
    env["VERIF_SCRATCH"] = scratch
    n = a.cases or meta[a.tier]
    budget = meta.get("budget_" + a.tier, 480 if a.tier == "quick" else 700)
    jobs = max(1, min(a.jobs, n))
    hard = budget + meta.get("grace", 150)
    if a.case is not None:
        shards = [(a.case, 1 << 30, a.case + 1)]
    else:
        shards = [(k, jobs, n) for k in range(jobs)]
    procs = []
    for k, ns, nc in shards:
        out = os.path.join(scratch, "shard%d.json" % k)
        cmd = [PY, os.path.join(VERIF, "run.py"), a.prop, "--tier", a.tier, "--seed", str(a.seed),
               "--shard", str(k), "--nshards", str(ns), "--ncases", str(nc), "--budget", str(budget), "--out", out]
        err = open(os.path.join(scratch, "err%d.txt" % k), "wb")
        procs.append((k, out, subprocess.Popen(cmd, env=env, stdout=err, stderr=subprocess.STDOUT, cwd=scratch), err))
    merged = dict(cases=0, counters={}, samples=[], violations=[])
    keys = set()
    trouble = []
    capped = False
    sys.path.insert(0, VERIF)
    from vlib import harness
    for k, out, p, err in procs:
        left = max(1, hard - (time.time() - t0))
        try:
            p.wait(timeout=left)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            trouble.append("shard %d: wall-clock watchdog (%d s)" % (k, hard))
        err.close()
        if not os.path.exists(out):
            tail = open(os.path.join(scratch, "err%d.txt" % k), "rb").read()[-3000:].decode("utf8", "replace")
            trouble.append("shard %d: no result (exit %s)\n%s" % (k, p.returncode, tail))
            continue
        d = json.load(open(out))
        merged["cases"] += d["cases"]
        harness.merge_counts(merged["counters"], d["counters"])
        keys |= set(d["keys"])
        merged["samples"] += d["samples"]
        merged["violations"] += d["violations"]
        capped |= d["capped"]
    merged["violations"].sort(key=lambda v: (v["case"], v["sig"]))
    known = harness.load_known(a.prop)
    fresh, hit = [], {}
    for v in merged["violations"]:
        for kf in known:
            if v["sig"] == kf["sig"]:
                hit.setdefault(kf["sig"], v)
                break
        else:
            fresh.append(v)
    for kf in known:
        if kf["sig"] in hit:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, kf["what"]))
    cnt = merged["counters"]
    short = []
    # "require" is what a run normally observes; far less would make a quiet verdict vacuous
    if a.case is None and not a.cases and not capped:
        for name, need in meta.get("require", {}).items():
            if cnt.get(name, 0) < max(1, need // 3):
                short.append("%s=%d < %d" % (name, cnt.get(name, 0), need))
    wall = time.time() - t0
    if a.case is None:
        ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level=meta.get("level", "exploration"),
                  coverage=dict(evaluations=merged["cases"], distinct_nontrivial=len(keys), rule=meta["rule"],
                                samples=merged["samples"][:6] or [{"note": "no case completed"}],
                                observed={k: v for k, v in sorted(cnt.items())},
                                stopped_early_by_time_budget=capped),
                  assumptions=meta.get("assumptions", []), wall_s=round(wall, 2), violations=len(fresh))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
    if fresh:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        seen = set()
        for v in fresh:
            if v["sig"] in seen:
                continue
            seen.add(v["sig"])
            rp = os.path.join(VERIF, "replays", "%s-%s-%d-%d.json" % (a.prop, a.tier, a.seed, v["case"]))
            with open(rp, "w") as f:
                json.dump(dict(property=a.prop, tier=a.tier, seed=a.seed, case=v["case"], sig=v["sig"],
                               msg=v["msg"], traceback=v["tb"], last_events=v["events"]), f, indent=1)
            print("[%s] case %d: %s\n    %s" % (a.prop, v["case"], v["sig"], v["msg"][:600]))
            if os.environ.get("VERIF_DEBUG"):
                print(v["tb"])
                for e in v["events"][-25:]:
                    print("      ", e[:220])
            print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        return 1
    if trouble:
        print("INCONCLUSIVE property=%s: %s" % (a.prop, "; ".join(trouble)))
        return 3
    if short:
        print("INCONCLUSIVE property=%s: the monitors observed too little: %s" % (a.prop, ", ".join(short)))
        return 3
    print("HELD property=%s tier=%s seed=%d cases=%d distinct=%d checks=%d wall=%.1fs" % (
        a.prop, a.tier, a.seed, merged["cases"], len(keys), cnt.get("oracle_checks", 0), wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
