#!/usr/bin/env python3
"""setup_cmd: shows that the machinery is alive - the oracles accept a sound image and reject doctored ones."""
import os
import random
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
if os.environ.get("VERIF_SELFTEST") != "1":
    env = dict(os.environ, VERIF_SELFTEST="1", PYTHONPATH=os.path.join(REPO, "src") + ":" + ROOT,
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    sys.exit(subprocess.call([PY, os.path.abspath(__file__)], env=env))

import ast
import json
for line in open(os.path.join(ROOT, "properties.jsonl")):
    json.loads(line)
for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]:
    ast.parse(open(os.path.join(ROOT, "props", c["property"].lower() + ".py")).read())

from vlib import cfbref  # noqa




import io
import aaf2
f = aaf2.open()
for i in range(20):
    f.content.mobs.append(f.create.MasterMob("mob %d" % i))
f.save()
f.manager.remove_temp()
f.cfb.close()
img = f.f.getvalue()


from vlib.vfile import TraceFile as F  # noqa


ok = cfbref.parse(F(img))
assert not ok.problems, ok.problems[:3]
from vlib import aafref  # noqa
A = aafref.parse(ok)
aafref.validate(A)
assert not A.problems, A.problems[:3]
rng = random.Random(7)
caught = 0
n = 60
for i in range(n):
    b = bytearray(img)
    k = rng.randrange(4096, len(b) - 4)          # tables, directory, streams
    if i % 2:
        k = rng.choice([44, 48, 52, 60, 64, 68, 72, 76, 80])
    b[k] ^= 0xFF
    try:
        im = cfbref.parse(F(bytes(b)))
        if im.problems or im.tree() != ok.tree():
            caught += 1
    except Exception:
        caught += 1
print("selftest: sound image accepted, %d of %d doctored images rejected" % (caught, n))
assert caught >= n // 3
