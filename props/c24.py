"""Content queries, links between essence and mobs, and user comments against set and ordered mapping models."""
from fractions import Fraction

import aaf2
from aaf2.auid import AUID
from aaf2.mobid import MobID
from aaf2.rational import AAFRational
from vlib import vfs

ID = "C24"
PLAN = {
    "quick": 320, "thorough": 6000,
    "rule": "histories of creating, removing, renaming and re-identifying mobs of every kind and usage and essence data, and of "
            "setting, replacing, appending, removing and listing user comments, with saves, reopening in every mode and copies "
            "into a second file; after each step some, at the end all queries are compared with sets of ids per kind and with "
            "ordered mappings per mob; distinct by (population, steps)",
    "require": {"queries": 10000, "listings": 6000, "tags_set": 4000, "tags_replaced": 800, "tags_refused": 150,
                "essence_links": 8000, "toplevel": 800, "reopened": 500, "reidentified": 100, "removed_mobs": 150},
    "assumptions": ["names and texts without NUL and lone surrogates", "no two comments of a mob with the same name unless "
                    "appended that way, then the first counts"],
}
USAGES = ["Usage_SubClip", "Usage_AdjustedClip", "Usage_TopLevel", "Usage_LowerLevel", "Usage_Template"]
TOP = AUID("0d010102-0101-0700-060e-2b3404010101")


def text(rng, allow_empty=True):
    r = rng.random()
    if r < 0.1 and allow_empty:
        return ""
    if r < 0.6:
        return "".join(rng.choice("abcXYZ 09_-.") for _ in range(rng.randint(1, 12)))
    if r < 0.9:
        return "".join(chr(rng.choice([rng.randint(0x20, 0x7e), rng.randint(0xa1, 0x7ff), rng.randint(0x3041, 0x30ff), 0x1f3ac, 0xfeff, 0xffff, 9, 10])) for _ in range(rng.randint(1, 10)))
    return "v" * rng.choice([100, 1000, 20000])


def value(rng):
    r = rng.random()
    if r < 0.5:
        return text(rng)
    if r < 0.8:
        return rng.choice([0, 1, -1, 42, 2 ** 31 - 1, -2 ** 31, rng.randint(-2 ** 31, 2 ** 31 - 1)])
    return AAFRational(rng.choice(["30000/1001", "0/1", "-7/3", "25/1", "2147483647/2147483646", "1/2147483647"]))


def same(a, b):
    if isinstance(b, Fraction):
        return isinstance(a, Fraction) and (a.numerator, a.denominator) == (b.numerator, b.denominator)
    return type(a) is type(b) and a == b


class World(object):
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.path = vfs.new("content.aaf")
        self.f = aaf2.open(self.path, "w")
        self.mobs = {}          # id -> dict(kind, usage, tags=[[name, value, kids]])
        self.ess = {}           # id -> bytes

    def mob(self, mid):
        return self.f.content.mobs.get(MobID(mid))

    # -- population -------------------------------------------------------------------------------------------------------
    def add(self):
        rng, f = self.rng, self.f
        kind = rng.choice(["MasterMob", "CompositionMob", "CompositionMob", "SourceMob", "SourceMob"])
        o = getattr(f.create, kind)()
        if kind == "SourceMob":
            o.descriptor = f.create.ImportDescriptor()
        m = dict(kind=kind, usage=None, tags=[], name=o.name)
        early = rng.random() < 0.5
        if not early:
            f.content.mobs.append(o)
        if rng.random() < 0.7:
            m["name"] = o.name = text(rng)
        if rng.random() < 0.6:
            m["usage"] = self.usage(o)
        if early:
            for _ in range(rng.choice([0, 0, 1, 3])):
                self.set_tag(o, m)
            f.content.mobs.append(o)
        self.mobs[str(o.mob_id)] = m
        self.ctx.log("add", kind, m["usage"], str(o.mob_id))

    def usage(self, o):
        rng = self.rng
        u = rng.choice(USAGES + ["Usage_TopLevel"] * 3)
        if u == "Usage_TopLevel" and rng.random() < 0.2:
            o.usage = TOP
        elif rng.random() < 0.2:
            o.usage = u.upper()
        else:
            o.usage = u
        self.ctx.eq(o.usage, u, "usage", "usage set")
        return u

    def pick(self, kind=None):
        ids = [k for k, m in self.mobs.items() if kind is None or m["kind"] == kind]
        return self.rng.choice(ids) if ids else None

    def change_usage(self):
        k = self.pick()
        if k is None:
            return
        o, m = self.mob(k), self.mobs[k]
        if self.rng.random() < 0.25:
            o.usage = None
            m["usage"] = None
        else:
            m["usage"] = self.usage(o)
        self.ctx.log("usage", k, m["usage"])

    def remove(self):
        k = self.pick()
        if k is None:
            return
        ms = self.f.content.mobs
        o = self.mob(k)
        self.ctx.check(ms.pop(MobID(k)) is o, "removed", "the mob taken out")
        self.mobs.pop(k)
        self.ctx.note("removed_mobs")
        self.ctx.log("remove", k)

    def reidentify(self):
        rng = self.rng
        new = MobID.new() if rng.random() < 0.5 else MobID(bytes_le=bytearray(rng.randbytes(32)))
        if rng.random() < 0.5:
            k = self.pick()
            if k is None:
                return
            if self.ess and rng.random() < 0.4:
                new = MobID(rng.choice(list(self.ess)))
            if str(new) in self.mobs:
                return
            o = self.mob(k)
            o.mob_id = new
            # order of the set is not promised
            self.mobs[str(new)] = self.mobs.pop(k)
        else:
            if not self.ess:
                return
            k = rng.choice(list(self.ess))
            e = self.f.content.essencedata.get(MobID(k))
            if self.mobs and rng.random() < 0.6:
                t = self.pick()
                if t in self.ess:
                    return
                new = MobID(t)
                if rng.random() < 0.5:
                    e.mob = self.mob(t)
                else:
                    e.mob_id = new
            else:
                e.mob_id = new
            self.ess[str(new)] = self.ess.pop(k)
        self.ctx.note("reidentified")
        self.ctx.log("reidentify", k, str(new))

    def add_essence(self):
        rng, f = self.rng, self.f
        k = self.pick("SourceMob") if rng.random() < 0.8 else self.pick()
        free = rng.random() < 0.25 or k is None
        e = f.create.EssenceData()
        mid = MobID.new() if free else MobID(k)
        if str(mid) in self.ess:
            return
        if not free and rng.random() < 0.5:
            e.mob = self.mob(k)
        else:
            e.mob_id = mid
        f.content.essencedata.append(e)
        data = rng.randbytes(rng.choice([0, 1, 100, 5000]))
        s = e.open("w")
        s.write(data)
        s.close()
        self.ess[str(mid)] = data
        self.ctx.log("essence", str(mid), len(data))

    def remove_essence(self):
        if not self.ess:
            return
        k = self.rng.choice(list(self.ess))
        es = self.f.content.essencedata
        es.pop(MobID(k))
        self.ess.pop(k)
        self.ctx.log("remove essence", k)

    # -- comments ---------------------------------------------------------------------------------------------------------
    def set_tag(self, o, m):
        rng, ctx = self.rng, self.ctx
        names = [t[0] for t in m["tags"]]
        if names and rng.random() < 0.35:
            n = rng.choice(names)
            if rng.random() < 0.2 and n.swapcase() not in names:
                n = n.swapcase()
        else:
            n = text(rng)
        r = rng.random()
        old = next((t for t in m["tags"] if t[0] == n), None)
        c = o.comments
        if r < 0.12:
            bad = rng.choice([2 ** 31, -2 ** 31 - 1, 2 ** 70, 1.5, b"x", [1], object()])
            ctx.raises((Exception,), "tag-refused", c.__setitem__, n, bad)
            ctx.note("tags_refused")
            ctx.log("refused", n, type(bad).__name__)
            return
        v = value(rng)
        if r < 0.25:
            t = self.f.create.TaggedValue(n, v)
            if isinstance(v, int) and rng.random() < 0.5:
                v = rng.choice([v, 2 ** 40 + v])
                t = self.f.create.TaggedValue(n, v, "aafInt64")
            (c if rng.random() < 0.5 else o["UserComments"]).append(t)
            m["tags"].append([n, v, []])
            if rng.random() < 0.3:
                k = self.f.create.TaggedValue("kid", "of " + n)
                t["TaggedValueAttributeList"].append(k)
                m["tags"][-1][2].append(("kid", "of " + n))
        else:
            c[n] = v
            if old:
                old[1] = v
                ctx.note("tags_replaced")
            else:
                m["tags"].append([n, v, []])
        ctx.note("tags_set")
        ctx.log("tag", n, str(v)[:40])

    def tag_step(self):
        rng, ctx = self.rng, self.ctx
        k = self.pick()
        if k is None:
            return
        o, m = self.mob(k), self.mobs[k]
        if m["tags"] and rng.random() < 0.12:
            i = rng.randrange(len(m["tags"]))
            r = rng.random()
            if r < 0.7:
                o["UserComments"].pop(i)
                m["tags"].pop(i)
            elif r < 0.85:
                o["UserComments"].clear()
                m["tags"][:] = []
            else:
                o.comments.get(m["tags"][i][0]).name = "renamed"
                next(t for t in m["tags"] if t[0] == m["tags"][i][0])[0] = "renamed"
            ctx.log("tag removed or renamed")
        else:
            for _ in range(rng.choice([1, 1, 2, 6])):
                self.set_tag(o, m)
        self.judge_tags(o, m)

    def judge_tags(self, o, m):
        ctx, rng = self.ctx, self.rng
        c = o.comments
        got = list(c.items())
        ctx.note("listings")
        ctx.check([x[0] for x in got] == [t[0] for t in m["tags"]] and all(same(x[1], t[1]) for x, t in zip(got, m["tags"])), "comments",
                  lambda: "comments %r, expected %r" % ([(a, str(b)[:40]) for a, b in got], [(t[0], str(t[1])[:40]) for t in m["tags"]]))
        first = {}
        for t in m["tags"]:
            first.setdefault(t[0], t)
        for n, t in first.items():
            if rng.random() < 0.5:
                continue
            ctx.check(n in c, "comments", lambda: "%r not contained" % n)
            ctx.check(same(c[n], t[1]), "comments", lambda: "%r is %r, expected %r" % (n, c[n], t[1]))
            x = c.get(n)
            ctx.check(x is not None and x.name == n and same(x.value, t[1]), "comments", lambda: "get(%r)" % n)
            kids = [(y.name, y.value) for y in x["TaggedValueAttributeList"].value or []] if t[2] else []
            ctx.eq(kids, t[2], "comments", "attributes of a comment")
        for n in ("no such", text(rng) + "?"):
            if n in first:
                continue
            ctx.check(n not in c, "comments", lambda: "%r contained" % n)
            ctx.eq(c.get(n), None, "comments", "get of a missing name")
            ctx.check(c.get(n, 17) == 17, "comments", "default of a missing name")
            ctx.raises((LookupError,), "comments", c.__getitem__, n)

    # -- queries -----------------------------------------------------------------------------------------------------------
    def judge(self, all_=False):
        ctx, rng, f = self.ctx, self.rng, self.f
        c = f.content
        by = {"MasterMob": c.mastermobs, "CompositionMob": c.compositionmobs, "SourceMob": c.sourcemobs}
        for kind, q in by.items():
            ctx.note("queries")
            got = [str(m.mob_id) for m in q()]
            ctx.check(sorted(got) == sorted(k for k, m in self.mobs.items() if m["kind"] == kind), "kind", lambda: "%s: %s, expected %s" % (
                kind, got, [k for k, m in self.mobs.items() if m["kind"] == kind]))
            ctx.check(all(type(m).__name__ == kind for m in q()), "kind", "class of the objects")
        got = [str(m.mob_id) for m in c.toplevel()]
        want = [k for k, m in self.mobs.items() if m["kind"] == "CompositionMob" and m["usage"] == "Usage_TopLevel"]
        ctx.note("queries")
        ctx.note("toplevel", len(want))
        ctx.check(sorted(got) == sorted(want), "toplevel", lambda: "top-level mobs %s, expected %s" % (got, want))
        ctx.eq((len(c.mobs), len(c.essencedata)), (len(self.mobs), len(self.ess)), "count", "mobs and essence data")
        ctx.check(sorted(str(m.mob_id) for m in c.mobs) == sorted(self.mobs), "mobs", "ids of all mobs")
        for k, m in self.mobs.items():
            if not all_ and rng.random() < 0.7:
                continue
            o = self.mob(k)
            ctx.check(o is not None and str(o.mob_id) == k and MobID(k) in c.mobs, "mob", lambda: "mob %s" % k)
            ctx.eq((type(o).__name__, o.name, o.usage), (m["kind"], m["name"], m["usage"]), "mob", "mob %s" % k)
            if m["kind"] == "SourceMob":
                ctx.note("essence_links")
                e = o.essence
                ctx.eq(None if e is None else str(e.mob_id), k if k in self.ess else None, "essence", "essence of %s" % k)
                if e is not None:
                    ctx.check(e.mob is o, "essence", "mob of the essence of a mob")
            if all_ or rng.random() < 0.4:
                self.judge_tags(o, m)
        for k, data in self.ess.items():
            if not all_ and rng.random() < 0.7:
                continue
            e = c.essencedata.get(MobID(k))
            ctx.note("essence_links")
            ctx.check(e is not None and str(e.mob_id) == k, "essence", lambda: "essence %s" % k)
            ctx.check(e.mob is self.mob(k), "essence", lambda: "mob of essence %s: %r" % (k, e.mob))
            s = e.open("r")
            ctx.check(s.read() == data, "essence", "data")
            s.close()
        ctx.eq(c.mobs.get(MobID.new()), None, "mob", "unknown mob")

    def reopen(self, mode):
        self.f.close()
        self.f = aaf2.open(self.path, mode)
        self.ctx.note("reopened")
        self.ctx.log("reopen", mode)
        self.judge(self.rng.random() < 0.5)
        if mode == "r":
            k = self.pick()
            if k is not None:
                o = self.mob(k)
                for n in ["new one"] + [t[0] for t in self.mobs[k]["tags"][:1]]:
                    self.ctx.raises((Exception,), "read-only", o.comments.__setitem__, n, "changed")
                self.judge_tags(o, self.mobs[k])

    def copied(self):
        """the mobs in another file"""
        rng, ctx = self.rng, self.ctx
        path = vfs.new("copy.aaf")
        g = aaf2.open(path, "w")
        ks = rng.sample(list(self.mobs), min(len(self.mobs), 5))
        for k in ks:
            g.content.mobs.append(self.mob(k).copy(root=g))
        g.close()
        g = aaf2.open(path, "r")
        for k in ks:
            o, m = g.content.mobs.get(MobID(k)), self.mobs[k]
            ctx.eq((type(o).__name__, o.name, o.usage), (m["kind"], m["name"], m["usage"]), "copied", k)
            self.judge_tags(o, m)
            if m["kind"] == "SourceMob":
                ctx.eq(o.essence, None, "copied", "essence without its data")
        top = {str(m.mob_id) for m in g.content.toplevel()}
        ctx.eq(top, {k for k in ks if self.mobs[k]["kind"] == "CompositionMob" and self.mobs[k]["usage"] == "Usage_TopLevel"}, "copied", "top-level mobs")
        g.close()


def case(ctx, i):
    rng = ctx.rng
    w = World(ctx)
    steps = rng.randint(10, 70)
    for step in range(steps):
        r = rng.random()
        if w.f.mode == "rb":
            w.reopen("r+")
        if r < 0.3 or not w.mobs:
            w.add()
        elif r < 0.36:
            w.change_usage()
        elif r < 0.41:
            w.remove()
        elif r < 0.47:
            w.reidentify()
        elif r < 0.55:
            w.add_essence()
        elif r < 0.58:
            w.remove_essence()
        elif r < 0.88:
            w.tag_step()
        elif r < 0.91:
            w.f.save()
        elif r < 0.93:
            w.copied()
        else:
            w.reopen(rng.choice(["r", "r+", "r+"]))
        w.judge()
    w.judge(True)
    w.reopen("r")
    w.judge(True)
    w.f.close()
    ctx.distinct((steps, len(w.mobs), len(w.ess), [len(m["tags"]) for m in w.mobs.values()]))
    ctx.sample(["%s=%d" % kv for kv in sorted(ctx.counters.items())])
    vfs.clear()
