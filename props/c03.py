from vlib.cfbworld import World

ID = "C03"
PLAN = {
    "quick": 2400, "thorough": 30000,
    "rule": "each case is a random mixed history (streams and directories, 1-4 sessions, both sector sizes) ending in "
            "close; the closed image is judged by an independent parser: header/DIFAT/FAT/miniFAT consistency, every "
            "sector and mini sector owned by exactly one chain and none lost, chain lengths equal to stream sizes, "
            "sibling trees strictly ordered and red-black, same tree and bytes as the model; distinct by operation "
            "log, non-trivial if something was removed, truncated or moved before the close",
    "require": {"images_judged": 3000, "op_remove": 3000, "stream_truncates": 1500, "max:fat_sectors": 5,
                "max:entries": 300},
    "assumptions": ["sibling trees are red-black only for files the library created itself"],
}
GROW = dict(create=20, mkdir=12, move=2, remove=1, overwrite=2)
SHRINK = dict(remove=20, rmtree=1, create=6, move=6, truncate=6, overwrite=4)


def case(ctx, i):
    rng = ctx.rng
    ss = rng.choice([512, 512, 4096])
    w = World(ctx, ss, "mixed", maxbig=300000 if i % 20 == 3 else 30000)
    w.judge_after = []
    if rng.random() < 0.1:
        w.close()
        w.judge_image(balance=True, strict_end=True)
        w.open("rb+")
    for s in range(rng.choice([1, 2, 3, 4])):
        r = rng.random()
        if r < 0.4:
            w.run(rng.choice([3, 20, 80, 200]))
        elif r < 0.7:
            w.run(rng.choice([20, 100, 300]), GROW)
        else:
            w.run(rng.choice([20, 100]), SHRINK)
        w.close()
        w.judge_image(balance=True, strict_end=True)
        w.open("rb+")
    if ctx.counters.get("op_remove") or ctx.counters.get("stream_truncates") or ctx.counters.get("op_move"):
        ctx.distinct((ss, str(ctx.events)))
    ctx.sample([repr(e) for e in ctx.events[:15]])
