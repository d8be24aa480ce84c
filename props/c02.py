from vlib.cfbworld import World

ID = "C02"
PLAN = {
    "quick": 2400, "thorough": 30000,
    "rule": "each case is a random history of create/makedir/makedirs/touch/remove/rmtree/move/class id changes and "
            "refused requests on one compound file (1-3 sessions), compared after every step or listing with a tree "
            "of dictionaries; about 1 case in 30 is wide (700-1800 directories, larger than every internal cache); "
            "distinct by operation log, non-trivial if it listed directories after a removal or move",
    "require": {"op_remove": 3000, "op_move": 3000, "op_rmtree": 500, "listings": 30000, "walks": 1500,
                "op_refused": 2000, "attributes_set": 2000, "wide_cases": 30, "sessions": 3000},
    "assumptions": ["names at most 31 characters, no '/' in names", "one thread"],
}

WIDE = dict(mkdir=10, create=3, makedirs=1, remove=2, move=4, lookup=3, list=1, class_id=1)


def case(ctx, i):
    rng = ctx.rng
    ss = rng.choice([512, 4096])
    w = World(ctx, ss, rng.choice(["tree", "tree", "mixed"]), maxbig=6000)
    if i % 30 == 11:
        ctx.note("wide_cases")
        w.maxbig = 200
        w.size = lambda: rng.choice([0, 1, 30, 70])
        w.run(rng.choice([900, 1600]), WIDE)
        w.check_all()
        w.run(150)
        w.check_all()
        w.close()
        w.judge_image(sigs=())
        w.open("rb+")
        w.run(100)
        w.check_all()
    else:
        if rng.random() < 0.2:
            w.names = [a + b for a in "abcde" for b in ["", "1", "22", "333"]]
        for s in range(rng.choice([1, 2, 3])):
            w.run(rng.choice([20, 60, 120, 250]))
            w.check_all()
            w.close()
            w.judge_image(sigs=())
            w.open("rb+" if rng.random() < 0.8 else "rb")
            w.check_all()
            if w.cfb.mode == "rb":
                break
    if ctx.counters.get("op_remove") or ctx.counters.get("op_move"):
        ctx.distinct((ss, str(ctx.events)))
    ctx.sample([repr(e) for e in ctx.events[:15]])
