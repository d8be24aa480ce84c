from vlib import cfbref
from vlib.cfbworld import World
from vlib.foreign import foreign
from vlib.harness import HarnessError

ID = "C04"
PLAN = {
    "quick": 1000, "thorough": 20000,
    "rule": "each case lays a random tree out with an independent writer (random sector and mini sector placement, "
            "holes, arbitrary sibling tree shapes, version 3/512 and version 4/4096, spare directory slots, DIFAT "
            "chains), opens it with the library and compares every listing, class id and byte; then opens it for "
            "editing, with no edit or 20-200 random edits over up to 3 sessions, and judges the image after each "
            "close; distinct by layout and operation log, non-trivial if the file has at least one stream",
    "require": {"streams_compared": 15000, "images_judged": 1800, "untouched_sessions": 280, "edited_sessions": 650,
                "max:difat_sectors": 1},
    "assumptions": ["the generated layouts are within [MS-CFB]; the independent parser accepts each before it is used"],
}


def case(ctx, i):
    rng = ctx.rng
    ss = rng.choice([512, 4096])
    big = i % 70 == 13
    if big:
        ss = 512
    root, img, how = foreign(ctx, ss, biggest=rng.choice([7300000, 16000000]) if big and i % 140 == 13 else
                             (900000 if big else 30000), width=200 if i % 9 == 4 else 30)
    w = World(ctx, ss, "mixed", image=img, model=root)
    im = cfbref.parse(w.file)
    if im.problems or im.tree() != w.model_tree():
        raise HarnessError("the generated layout is not valid: %s" % im.problems[:3])
    for k in ("difat_sectors", "fat_sectors", "depth"):
        ctx.notemax(k, im.stats[k])
    w.open("rb")
    w.check_all()
    ctx.eq((w.file.nwrites, w.file.ntrunc), (0, 0), "read-open-writes", "writes while reading a foreign file")
    w.close()
    ctx.eq((w.file.nwrites, w.file.ntrunc), (0, 0), "read-open-writes", "writes while reading a foreign file")
    w.open("rb+")
    w.check_all()
    if rng.random() < 0.4:
        w.close()
        w.judge_image()
        ctx.note("untouched_sessions")
        w.open("rb+")
    if rng.random() < 0.8:
        for s in range(rng.choice([1, 2, 3])):
            w.run(rng.choice([1, 5, 20, 60, 200]) if not big else 30)
            w.close()
            w.judge_image()
            ctx.note("edited_sessions")
            w.open("rb+")
            w.check_all()
    if root.kids:
        ctx.distinct(str(ctx.events))
    ctx.sample([repr(e) for e in ctx.events[:15]])
