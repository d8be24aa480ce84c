"""Draws up data/standard.json from a file the library writes (with and without extensions).  Run by hand, once: the
result is committed, compared with the models found in files of other applications (see --compare), and not rewritten."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src"))
from vlib import aafref, cfbref, standard, vfs                       # noqa: E402
from vlib.vfile import TraceFile                                     # noqa: E402


def load(data):
    A = aafref.parse(cfbref.parse(data))
    if not A.classes:
        aafref.load_meta(A)
    return A


def build():
    import aaf2
    from aaf2.model import classdefs
    from aaf2.model.ext import classdefs as xclassdefs
    vfs.install() if hasattr(vfs, "install") else None
    out = {}
    models = {}
    for ext in (False, True):
        path = "/tmp/mkstandard.aaf"
        with aaf2.open(path, "w", extensions=ext) as f:
            pass
        with open(path, "rb") as fp:
            A = load(TraceFile(fp.read()))
        os.remove(path)
        models[ext] = standard.model_of(A)
        defs = {k: {a: standard.definition(o) for a, (n, o) in v.items()} for k, v in standard.definitions_of(A).items()}
    out["classes"] = {}
    for a, c in models[True]["classes"].items():
        b = models[False]["classes"].get(a)
        c["ext"] = b is None
        for q, d in c["props"].items():
            d[1] = None if d[1] >= 0x8000 else d[1]          # given out file by file
        out["classes"][a] = c
    out["basedyn"] = sorted(q for c in models[False]["classes"].values() for q, d in c["props"].items() if d[1] is None or
                            d[1] >= 0x8000)
    out["types"] = {}
    for a, t in models[True]["types"].items():
        b = models[False]["types"].get(a)
        t["ext"] = b is None
        if b is not None and "enum" in b:
            t["base"] = sorted(b["enum"])
        out["types"][a] = t
    out["definitions"] = defs
    out["aliases"] = dict(classdefs.aliases)
    out["extaliases"] = dict(xclassdefs.aliases)
    with open(standard.WHERE, "w") as f:
        json.dump(out, f, indent=0, sort_keys=True)


if __name__ == "__main__":
    if sys.argv[1:2] == ["--compare"]:
        for fn in sys.argv[2:]:
            with open(fn, "rb") as fp:
                A = load(TraceFile(fp.read()))
            d, c = standard.differences(A, other=True)
            print(fn, c)
            for k, m in d:
                print("   ", k, m)
            T = standard.table()["definitions"]
            for k, v in standard.definitions_of(A).items():
                for a, (n, o) in v.items():
                    if a in T.get(k, {}) and T[k][a][0] != n:
                        print("    %s %s: %r, published %r" % (k, a, n, T[k][a][0]))
    else:
        build()
