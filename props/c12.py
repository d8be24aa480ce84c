"""Keyed sets against Python dictionaries, and changes of keys."""
from vlib.aafworld import AWorld
from vlib import custom, vfs

ID = "C12"
PLAN = {
    "quick": 320, "thorough": 6000,
    "rule": "30-200 random operations on the keyed sets of a file (mobs, essence data, definitions, parameters of "
            "operation groups) with ids from a small pool, id changes to free and used ids, handle loss, saves and "
            "reopenings; after each one length, keys, membership, lookups, iteration and identities are compared with a "
            "Python dict, keys in index streams offline with the objects' own ids; distinct by (class, set, kind)",
    "require": {"set_ops": 3000, "set_replacements": 300, "op_rekey": 1000, "rekey_refused": 100,
                "images_judged": 300, "refused_key": 100},
    "assumptions": ["mobs that are the target of the header's PrimaryMob reference are not re-keyed"],
}


def case(ctx, i):
    rng = ctx.rng
    w = AWorld(ctx, dict(set=40, addmob=12, addess=8, rmmob=6, rekey=30, vec=2, setdata=4, setstrong=2, stream=2,
                         refuse=10, refuse_key=4, reuse=8, drop=12, save=4, reopen=3, adddef=4, delprop=1, warr=1,
                         weak=1), maxdepth=rng.choice([1, 2]), optional=0.1, setup=lambda f: custom.owner_model(f, rng))
    del w.mobids[rng.choice([2, 4, 8]):]
    mobs = w.model.props("ContentStorage")["Mobs"]
    for _ in range(rng.choice([30, 80, 200])):
        r = rng.random()
        if r < 0.35:
            name = rng.choice(["Mobs", "Mobs", "EssenceData"])
            w.set_step(w.content(), w.model.props("ContentStorage")[name])
        elif r < 0.45:
            # parameters of operation groups
            g = w.pick_node(lambda n: n.cls == "OperationGroup")
            if g is None:
                g = w.make("OperationGroup", 1)
                w.pool.append(g)
            w.set_step(g, w.model.props("OperationGroup")["Parameters"])
        else:
            w.step()
        w.trim_pool()
    for name in ("Mobs", "EssenceData"):
        w.after_set(w.content(), w.model.props("ContentStorage")[name])
    w.finish()
    vfs.clear()
    ctx.sample([repr(e) for e in ctx.events[:12]] + ["%d events" % len(ctx.events)])
