"""Object graph round trip: specification graph against the library, reopened files and raw images."""
from vlib.aafworld import AWorld
from vlib import custom, vfs

ID = "C09"
PLAN = {
    "quick": 200, "thorough": 6000,
    "rule": "random editing histories (30-250 steps, 1-10 sessions) on files of random object graphs over all concrete "
            "classes; after random steps, at every session end, after reopening (read-only) and on the closed image the "
            "whole graph is compared with the specification; distinct by (class, property, kind, attached)",
    "require": {"graphs_compared": 500, "images_judged": 200, "reopens": 100, "op_setdata": 1000, "op_vec": 500,
                "op_stream": 150, "op_setstrong": 150, "stored_objects_compared": 30000},
    "assumptions": ["class and property descriptions come from the file's own model; values of a property are below 64 KiB"],
}


def case(ctx, i):
    rng = ctx.rng
    weights = {}
    if rng.random() < 0.25:
        weights = dict(reopen=12, drop=10)      # many short sessions
    elif rng.random() < 0.25:
        weights = dict(save=20, drop=10)
    w = AWorld(ctx, weights, maxdepth=rng.choice([2, 3, 3, 4]), optional=rng.choice([0.1, 0.35, 0.35, 0.7]), setup=lambda f: custom.owner_model(f, rng))
    w.run(rng.choice([30, 80, 150, 250]))
    w.finish()
    vfs.clear()
    ctx.sample([repr(e) for e in ctx.events[:12]] + ["%d steps" % w.nops])
