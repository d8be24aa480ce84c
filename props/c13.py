"""Ownership: one owner at most, refused requests without effect, released objects stay whole."""
from vlib.aafworld import AWorld
from vlib import custom, vfs

ID = "C13"
PLAN = {
    "quick": 280, "thorough": 6000,
    "rule": "histories of attaching, detaching, replacing, moving and re-attaching objects (with streams) mixed with "
            "requests that must be refused (owned objects, objects of another file, wrong classes, bad indices and keys, "
            "mixed lists); before/after snapshots around each refusal, released objects compared with their "
            "specification until the session ends; distinct by (class, property, kind, attached)",
    "require": {"refused": 2000, "released": 1000, "reattached": 300, "images_judged": 250, "graphs_compared": 600},
    "assumptions": ["an object owned by an object that is itself not in the file yet counts as free"],
}


def case(ctx, i):
    rng = ctx.rng
    w = AWorld(ctx, dict(refuse=25, refuse_key=4, reuse=20, rmmob=8, delprop=8, setstrong=14, vec=16, set=6, stream=10,
                         setdata=6, copy=2, verify=5, drop=6), maxdepth=rng.choice([2, 3]),
               optional=rng.choice([0.15, 0.35]), setup=lambda f: custom.owner_model(f, rng))
    w.run(rng.choice([40, 100, 200]))
    w.finish()
    vfs.clear()
    ctx.sample([repr(e) for e in ctx.events[:12]] + ["%d steps" % w.nops])
