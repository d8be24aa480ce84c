"""Weak references resolve to the very object they were set to."""
from vlib.aafworld import AWorld
from vlib import custom, vfs

ID = "C14"
PLAN = {
    "quick": 280, "thorough": 6000,
    "rule": "histories dominated by setting, extending, assigning and clearing weak references, vectors and sets of "
            "every class, adding definitions, copying, saving and reopening; each reference is resolved and compared by "
            "identity with the object its key belongs to, refused requests checked for effects, and on the closed image "
            "each stored reference is resolved through the file's own reference table; distinct by (class, property, "
            "kind, attached)",
    "require": {"weak_resolved": 5000, "weakrefs_resolved": 60000, "op_primary": 100, "refused_weak": 50,
                "images_judged": 250},
    "assumptions": ["targets stay in the file while they are referenced"],
}


def case(ctx, i):
    rng = ctx.rng
    w = AWorld(ctx, dict(weak=30, warr=30, adddef=8, primary=6, refuse=6, copy=6, reuse=8, drop=8, reopen=3, rekey=6,
                         vec=8, setdata=6), maxdepth=rng.choice([2, 3]), optional=rng.choice([0.15, 0.4]),
               setup=(lambda f: custom.weak_model(f, rng)) if rng.random() < 0.4 else
               (lambda f: custom.strong_model(f, rng)) if rng.random() < 0.2 else None)
    w.run(rng.choice([40, 100, 200]))
    # resolve everything once more
    for n in w.nodes(defs=True):
        for name, v in sorted(n.props.items()):
            pd = w.model.props(n.cls).get(name)
            if v.kind == "weak" and pd is not None and pd.path is not None:
                w.check_weak(n, pd)
    w.finish()
    vfs.clear()
    ctx.sample([repr(e) for e in ctx.events[:12]] + ["%d steps" % w.nops])
