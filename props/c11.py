"""Reference vectors against Python lists."""
from vlib.aafworld import AWorld, SVEC
from vlib import custom, vfs

ID = "C11"
PLAN = {
    "quick": 320, "thorough": 6000,
    "rule": "a vector of an attached or detached owner (focus) or any vector of the file gets 30-200 random list "
            "operations mixed with handle loss, saves, reopenings and out-of-range or foreign requests; after each "
            "operation length, identities by positive and negative index and held handles are compared with a Python "
            "list, after reopening contents and order, and index streams offline; distinct by (class, vector, "
            "attached)",
    "require": {"vector_ops": 6000, "refused_index": 120, "images_judged": 300, "reopens": 150},
    "assumptions": [],
}
FOCUS = [("Header", "IdentificationList"), ("Mob", "Slots"), ("Sequence", "Components"), ("OperationGroup", "InputSegments"),
         ("Mob", "UserComments"), ("VaryingValue", "PointList"), ("Header", "*"), ("Mob", "*"), ("TimelineMobSlot", "*")]


def case(ctx, i):
    rng = ctx.rng
    w = AWorld(ctx, dict(vec=60, refuse=20, drop=15, save=4, reopen=2, copy=4), maxdepth=2, optional=0.15, setup=lambda f: custom.owner_model(f, rng))
    if i % 3 == 0:
        w.run(rng.choice([40, 120, 200]))
        w.finish()
    else:
        cls, name = rng.choice(FOCUS)
        for _ in range(3):
            w.op_addmob()
        if cls == "Header":
            n = w.root
        elif cls == "Mob":
            if rng.random() < 0.5:
                n = w.make(w.pick_class("Mob", 0), 1)
                w.pool.append(n)
            else:
                v = w.content().props["Mobs"].v
                n = v[rng.choice(sorted(v))]
        else:
            n = w.make(cls, 1)
            w.pool.append(n)
        pds = [pd for pd in w.model.props(n.cls).values() if pd.form == SVEC and w.can_set(n, pd) and
               (name == "*" or pd.name == name)]
        if not pds:
            n, pds = w.root, [w.model.props("Header")["IdentificationList"]]
        pd = rng.choice(sorted(pds, key=lambda p: p.name))
        ctx.log("focus", n.cls, pd.name, w.attached(n))
        for _ in range(rng.choice([30, 80, 200])):
            r = rng.random()
            if r < 0.75:
                w.vec_step(n, pd)
            elif r < 0.82:
                w.op_drop()
            elif r < 0.87:
                w.op_save()
            elif r < 0.90 and w.attached(n):
                w.op_reopen()
                pd = w.model.props(n.cls)[pd.name]
            elif r < 0.93:
                w.verify(n, "owner", "vector")
            elif r < 0.97:
                w.op_refuse()
            elif n in w.pool and rng.random() < 0.5:
                w.op_reuse()
            w.trim_keep(n)
        w.finish()
    vfs.clear()
    ctx.sample([repr(e) for e in ctx.events[:12]] + ["%d events" % len(ctx.events)])
