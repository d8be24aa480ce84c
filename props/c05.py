"""Released space is reused; nothing stays allocated without an owner."""
import posixpath
from vlib.cfbworld import World, MFile, MDir, content

ID = "C05"
PLAN = {
    "quick": 900, "thorough": 12000,
    "rule": "each case fixes a batch of creations (streams of given sizes, directories, nested trees) and a way to "
            "release them (remove, rmtree, truncate(0), shrinking truncate, overwrite by an empty or short stream, "
            "growing out of the mini stream), repeats create+release 4-8 times in one session or over several, and "
            "watches the high-water mark of the file object after every cycle: from the third cycle on it may not "
            "exceed the first two; the closed image must have no ownerless allocated sector and no free tail; "
            "distinct by batch and release method",
    "require": {"cycles": 4000, "images_judged": 900, "cross_session_cycles": 600},
    "assumptions": ["the batch of a cycle is identical, directory slots freed in an earlier session are out of scope"],
}


def case(ctx, i):
    rng = ctx.rng
    ss = rng.choice([512, 4096])
    w = World(ctx, ss, "mixed", maxbig=20000)
    w.run(rng.choice([0, 5, 40]))
    big = rng.random() < 0.5
    sizes = [rng.choice([10, 64, 1000, 4095, 4096, 5000, 20000, 100000 if big else 300])
             for _ in range(rng.choice([1, 3, 10, 40]))]
    ndirs = rng.choice([0, 0, 3, 40])
    how = rng.choice(["remove", "rmtree", "truncate0", "shrink", "overwrite", "emptyw", "convert"])
    sessions = rng.random() < 0.35 and how in ("truncate0", "shrink", "overwrite", "emptyw", "convert")
    ncyc = rng.choice([4, 6, 8])
    ctx.log("batch", ss, sizes, ndirs, how, sessions)
    ctx.distinct((ss, sizes, ndirs, how, sessions))
    d = "/cycle dir"
    data = [content(rng, n) for n in sizes]

    def create():
        if not w.cfb.exists(d):
            w.cfb.makedir(d)
            w.root.kids["cycle dir"] = MDir()
        m = w.root.kids["cycle dir"]
        for k, x in enumerate(data):
            n = "s%d" % k
            s = w.cfb.open(d + "/" + n, "w")
            s.write(x)
            m.kids[n] = MFile(x)
        for k in range(ndirs):
            if "d%d" % k not in m.kids:
                w.cfb.makedir(d + "/d%d" % k)
                m.kids["d%d" % k] = MDir()

    def release():
        m = w.root.kids["cycle dir"]
        if how == "rmtree":
            w.cfb.rmtree(d)
            del w.root.kids["cycle dir"]
            return
        for k, x in enumerate(data):
            n = "s%d" % k
            p = d + "/" + n
            if how == "remove":
                w.cfb.remove(p)
                del m.kids[n]
            elif how == "truncate0":
                w.cfb.open(p, "rw").truncate(0)
                m.kids[n].data = bytearray()
            elif how == "shrink":
                w.cfb.open(p, "rw").truncate(len(x) // 3)
                del m.kids[n].data[len(x) // 3:]
            elif how == "overwrite":
                w.cfb.open(p, "w").write(x[:7])
                m.kids[n].data = bytearray(x[:7])
            elif how == "emptyw":
                w.cfb.open(p, "w")
                m.kids[n].data = bytearray()
            elif how == "convert":
                s = w.cfb.open(p, "rw")
                s.seek(0, 2)
                s.write(b"c" * 5000)
                s.truncate(100)
                m.kids[n].data = (bytearray(x) + b"c" * 5000)[:100]
        if how == "remove":
            for k in range(ndirs):
                w.cfb.remove(d + "/d%d" % k)
                del m.kids["d%d" % k]

    marks = []
    for c in range(ncyc):
        create()
        release()
        ctx.note("cycles")
        if sessions:
            marks.append(-(-w.file.size // ss))
            w.close()
            im = w.judge_image()
            ctx.eq(im.stats["sectors"], im.stats["last_used"] + 1, "free-tail", "sectors in the closed file")
            marks[-1] = max(marks[-1], -(-w.file.size // ss))
            w.open("rb+")
            ctx.note("cross_session_cycles")
        else:
            marks.append(-(-w.file.size // ss))
    ctx.log("marks", marks)
    ctx.note("oracle_checks")
    ctx.check(max(marks[2:]) <= max(marks[:2]), "space-not-reused",
              lambda: "file grew over identical %s cycles: %s" % (how, marks))
    w.check_all()
    w.close()
    im = w.judge_image()
    ctx.eq(im.stats["sectors"], im.stats["last_used"] + 1, "free-tail", "sectors in the closed file")
    ctx.sample([repr(e)[:300] for e in ctx.events[-2:]])
