"""Growth: DIFAT sectors, many FAT sectors, the range lock sector at 2 GiB."""
from vlib import cfbref
from vlib.cfbworld import World, MFile, content
from vlib.vfile import TraceFile
from aaf2.cfb import CompoundFileBinary

ID = "C06"
PLAN = {
    "quick": 140, "thorough": 1200, "budget_quick": 300,
    "rule": "case kinds: (a) a 512-byte-sector file grown stream by stream past 109 FAT sectors and past one to three "
            "DIFAT sectors (7-30 MB) with removals and reopenings between, model and independent image check; (b) a "
            "sparse 4096-byte-sector file whose FAT ends just below, at or beyond the 2 GiB range lock, grown across "
            "it by the library in streams of random sizes; distinct by operation log, non-trivial if the file gained "
            "FAT sectors during the case",
    "require": {"grown_fat": 100, "crossed_range_lock": 25, "max:difat_sectors": 3, "images_judged": 40},
    "assumptions": ["the memory file stands for a file system that supports 2 GiB files"],
}
CASE_CPU = 400


def difat_case(ctx, i):
    rng = ctx.rng
    w = World(ctx, 512, "mixed", maxbig=100000)
    # number of DIFAT sectors to reach
    target = rng.choice([1, 1, 2, 3, 3])
    limit = {1: 7.2e6, 2: 15.6e6, 3: 24.2e6}[target] * rng.choice([1.0, 1.05, 1.2])
    total = 0
    k = 0
    start = None
    reopen = rng.choice([0, 1, 3])
    marks = sorted(rng.random() * limit for _ in range(reopen))
    while w.file.size < limit:
        n = rng.choice([5000, 70000, 70000, 100000, 150000])
        name = "s%04d" % k
        k += 1
        data = content(rng, n)
        ctx.log("grow", name, n)
        s = w.cfb.open("/" + name, "w")
        s.write(data)
        w.root.kids[name] = MFile(data)
        total += n
        if rng.random() < 0.03:
            w.op_remove()
        if marks and total > marks[0]:
            marks.pop(0)
            w.close()
            w.judge_image(strict_end=True)
            w.open("rb+")
    w.close()
    im = w.judge_image(strict_end=True)
    if im.stats["fat_sectors"] > 109:
        ctx.note("grown_fat")
    w.open("rb+")
    w.check_all()
    for _ in range(10):
        w.op_remove()
    w.op_create()
    w.close()
    w.judge_image(strict_end=True)
    w.open("rb")
    w.check_all()


def lock_case(ctx, i):
    rng = ctx.rng
    v = rng.randrange(4)
    f = TraceFile()
    if v == 0:      # FAT ends one FAT sector short of the lock sector: the library adds that FAT sector
        size, marks = cfbref.build_huge(f._put, 511, rng.choice([0, 5, 100, 1000]))
    elif v == 1:    # lock sector inside the FAT, properly marked
        size, marks = cfbref.build_huge(f._put, 512, rng.choice([3, 40, 900]), lock=cfbref.EOC)
    elif v == 2:    # lock sector inside the FAT and (wrongly) marked free, and so in the free list
        size, marks = cfbref.build_huge(f._put, 512, rng.choice([3, 40, 900]), lock=cfbref.FREE)
    else:           # ends exactly at a FAT boundary
        size, marks = cfbref.build_huge(f._put, 511, 0)
    ctx.log("huge", v, size)
    im = cfbref.parse(f, want_data=False, strict_end=True)
    if im.problems:
        from vlib.harness import HarnessError
        raise HarnessError(str(im.problems[:3]))
    f0 = im.stats["fat_sectors"]
    cfb = CompoundFileBinary(f, "rb+")
    model = {}

    def verify(c):
        s = c.open("/giant", "r")
        ctx.eq(s.dir.byte_size, size, "growth-content", "size of the existing stream")
        for off, d in marks:
            s.seek(off)
            ctx.eq(bytes(s.read(len(d))), d, "growth-content", "marker at %d of the existing stream" % off)
        for n, d in model.items():
            ctx.eq(bytes(c.open("/" + n, "r").read()), d, "growth-content", "stream %s" % n)
            ctx.note("streams_compared")

    for k in range(rng.choice([4, 6, 9])):
        n = rng.choice([100, 5000, 200000, 900000, 2500000])
        d = content(rng, n)
        ctx.log("write", k, n)
        s = cfb.open("/new%d" % k, "w")
        half = rng.randint(0, n)
        s.write(d[:half])
        s.write(d[half:])
        model["new%d" % k] = d
        if rng.random() < 0.2 and model:
            g = rng.choice(sorted(model))
            cfb.remove("/" + g)
            del model[g]
        if rng.random() < 0.15:
            cfb.close()
            f.closed = False
            cfb = CompoundFileBinary(f, "rb+")
    # make sure the lock sector is passed
    while sum(map(len, model.values())) < 5000000:
        k += 1
        d = content(rng, 2300000)
        cfb.open("/new%d" % k, "w").write(d)
        model["new%d" % k] = d
    verify(cfb)
    cfb.close()
    im = cfbref.parse(f, want_data=True, max_data=40 << 20, strict_end=True)
    ctx.note("images_judged")
    ctx.check(not im.problems, "growth-image", lambda: "; ".join("%s: %s" % p for p in im.problems[:5]))
    got = {c.name: c.data for c in im.root.children}
    for n, d in model.items():
        ctx.eq(got.get(n), d, "growth-content", "stream %s as seen by the independent reader" % n)
    ctx.eq(set(got), set(model) | {"giant"}, "growth-content", "names")
    rl = f.at(0x7FFFF000, 4096)
    ctx.check(rl == bytes(len(rl)), "range-lock", "bytes were written to the range lock sector")
    ctx.notemax("fat_sectors", im.stats["fat_sectors"])
    if im.stats["fat_sectors"] > f0:
        ctx.note("grown_fat")
    if im.stats["last_used"] > 524286:
        ctx.note("crossed_range_lock")
    f.closed = False
    verify(CompoundFileBinary(f, "rb"))


def case(ctx, i):
    if i % 3 == 1:
        lock_case(ctx, i)
    else:
        difat_case(ctx, i)
    ctx.distinct(str(ctx.events))
    ctx.sample([repr(e) for e in ctx.events[:10]] + ["%d operations" % len(ctx.events)])
