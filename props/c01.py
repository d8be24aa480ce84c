from vlib.cfbworld import World

ID = "C01"
PLAN = {
    "quick": 2600, "thorough": 40000,
    "rule": "each case is a random history (20-500 operations, 1-4 open/close sessions, 512 or 4096 byte sectors) of "
            "write/seek/read/truncate/reopen on several streams of one compound file, sizes clustered on sector, "
            "mini-sector and mini-stream-cutoff boundaries; every read, tell and size is compared with a byte-array "
            "model, whole streams again after each session by the library and by an independent reader; a case is "
            "distinct by its operation log and non-trivial if it compared stream bytes after at least one write",
    "require": {"stream_reads": 10000, "stream_writes": 10000, "stream_truncates": 4000, "bytes_compared": 10000000,
                "overseek": 500, "images_judged": 2000},
    "assumptions": ["one writing handle per stream at a time", "one thread", "stream names at most 31 characters"],
}


def case(ctx, i):
    rng = ctx.rng
    ss = rng.choice([512, 4096])
    big = i % 40 == 7
    w = World(ctx, ss, "stream", maxbig=600000 if big else 60000)
    for s in range(rng.choice([1, 2, 3, 4])):
        w.run(rng.choice([20, 60, 120] if not big else [60]))
        if rng.random() < 0.5:
            w.check_all()
        w.close()
        w.judge_image(sigs=())
        w.open("rb+" if rng.random() < 0.9 else "r+")
        w.check_all()
    if ctx.counters.get("bytes_compared") and ctx.counters.get("stream_writes"):
        ctx.distinct((ss, str(ctx.events)))
    ctx.sample([repr(e) for e in ctx.events[:15]])
