#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py (one literal list)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from properties import PROPS  # noqa

ROOT = os.path.dirname(HERE)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                              observe_at=p.get("observe", []), hook_needed=None))
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
import ast
import glob


def plan(pid):
    for x in ast.parse(open(os.path.join(ROOT, "props", pid.lower() + ".py")).read()).body:
        if isinstance(x, ast.Assign) and getattr(x.targets[0], "id", "") == "PLAN":
            return ast.literal_eval(x.value)


def design():
    out = []
    for p in PROPS:
        if not os.path.exists(os.path.join(ROOT, "props", p["id"].lower() + ".py")):
            continue
        q = plan(p["id"])
        out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "",
                "* **Decided by**: " + p["technique"] + ".", "* **Workload and what is compared**: " + q["rule"] + ".",
                "* **Ranges over**: " + p["quant"] + ".", "* **Why tests cannot**: " + p["why"],
                "* **Bounds**: quick %d cases, thorough %d cases; must observe at least %s. %s%s" % (
                    q["quick"], q["thorough"], ", ".join("%s %s" % (v, k) for k, v in q.get("require", {}).items()),
                    p["note"][0].upper() + p["note"][1:] + ".",
                    " Assumes: " + "; ".join(q["assumptions"]) + "." if q.get("assumptions") else ""),
                "* **Cost**: %s on 8 cores (quick)." % p.get("cost", "about a minute"), ""]
    seeds = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
    missed = set(open(os.path.join(HERE, "missed.txt")).read().split()) if os.path.exists(os.path.join(HERE, "missed.txt")) else set()
    for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        m = json.load(open(d))
        b = os.path.basename(os.path.dirname(d))
        seeds.append("| %s | %s | %s | %s | %s%s |" % (b, m["property"], m["what_it_breaks"], m["needs"], m["property"],
                                                      " (first missed)" if b in missed else ""))
    fixes = ["| property | commit | what failed |", "|---|---|---|"]
    for line in open(os.path.join(ROOT, "known_findings.txt")):
        if line.startswith("fixed:"):
            _, pid, sha, what = line.rstrip().split(" ", 3)
            fixes.append("| %s | %s | %s |" % (pid.split("=")[1], sha, what))
    t = open(os.path.join(HERE, "design.md")).read()
    t = t.replace("{{CHECKS}}", "\n".join(out)).replace("{{SEEDS}}", "\n".join(seeds)).replace("{{FIXES}}", "\n".join(fixes))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)


design()
checks, na = [], []
for p in PROPS:
    if os.path.exists(os.path.join(ROOT, "props", p["id"].lower() + ".py")) and not p.get("na"):
        checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"],
                           thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique=p["technique"],
                           level=p.get("level", "exploration"), level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=p.get("na") or "check under construction"))
m = dict(version=1, setup_cmd="python3 tools/selftest.py", checks=checks, not_applicable=na,
         notes="Pure Python target: no hooks in /repo are needed, everything is observed at the public API, at the "
               "file object handed to the library and in the bytes it leaves behind.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
