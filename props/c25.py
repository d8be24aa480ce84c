"""Looking at a file: everything is shown, once, and nothing changes."""
import contextlib
import io

import aaf2
from aaf2.auid import AUID
from aaf2.types import TypeDef
from vlib.aafworld import AWorld, Val, DATA, STREAM, STRONG, SVEC, SSET, WEAK, WVEC, WSET, diff, keyb, snap
from vlib import aafvals, cfbref, custom, vfs
from vlib.aafvals import uid
from vlib.harness import short

ID = "C25"
PLAN = {
    "quick": 140, "thorough": 5000,
    "rule": "random editing histories interleaved with looking at objects (in the file, not in the file, in files opened "
            "for reading): the traversal of the owned objects and streams against the specification tree, the dictionary "
            "view of properties against the class model, the printed dump against names and values, every class and type "
            "definition through every form of lookup; afterwards the graph is compared with the specification and the "
            "saved bytes with those before; distinct by (class, way of looking, attached)",
    "require": {"walks": 700, "walked_objects": 8000, "walked_streams": 300, "key_views": 4000, "dumps": 300,
                "dumped_properties": 4000, "lookups": 40000, "quiet_saves": 200, "idle_sessions": 50, "read_only": 100},
    "assumptions": ["no object is edited while a traversal of it is under way"],
}


class World(AWorld):
    def look(self, what, n):
        self.ctx.note("looks")
        self.ctx.log("look", what, n.cls)
        self.ctx.distinct((n.cls, what, self.attached(n), self.f.mode))

    # --- traversal --------------------------------------------------------------
    def op_walk(self):
        ck = self.ctx.check
        n = self.pick_node() if self.rng.random() < 0.85 else self.root
        if n is None:
            return False
        o = self.obj(n)
        last = self.rng.choice([False, True, None])
        self.look("walk", n)
        got = list(o.walk_references() if last is None else o.walk_references(topdown=last))
        self.ctx.note("walks")
        self.ctx.note("walked_objects", len(got))
        ids = [id(x) for x, _ in got]
        ck(len(set(ids)) == len(ids), "walk", lambda: "walking %s visits an object twice" % n.cls)
        want = {}
        for c in n.walk():
            want[id(self.obj(c))] = c
        ck(set(ids) == set(want), "walk", lambda: "walking %s visits %d objects, it owns %d; missed %s, extra %s" % (
            n.cls, len(ids), len(want), [c.cls for k, c in want.items() if k not in ids][:5],
            [x for x, _ in got if id(x) not in want][:5]))
        pos = {k: i for i, k in enumerate(ids)}
        for x, streams in got:
            c = want[id(x)]
            if c is not n:
                a, b = pos[id(self.obj(c.parent))], pos[id(x)]
                ck((a > b) if last else (a < b), "walk-order", lambda: "%s comes %s its owner %s" % (
                    c.cls, "after" if last else "before", c.parent.cls))
            names = sorted(p.name for p in streams)
            wn = sorted(k for k, v in c.props.items() if v.kind == "stream")
            ck(names == wn, "walk-streams", lambda: "streams of %s are %s, expected %s" % (c.cls, names, wn))
            for p in streams:
                self.ctx.note("walked_streams")
                if self.attached(c):
                    d = p.open("r").read()
                    ck(bytes(d) == bytes(c.props[p.name].v), "walk-streams", lambda: "the stream %s.%s has other bytes" % (
                        c.cls, p.name))

    # --- dictionary view -----------------------------------------------------------
    def op_keys(self):
        for _ in range(6):
            n = self.pick_node()
            if n is not None:
                self.keys_of_node(n)

    def keys_of_node(self, n):
        rng, ck = self.rng, self.ctx.check
        o = self.obj(n)
        self.look("keys", n)
        self.ctx.note("key_views")
        every = []
        for c in self.model.chain(n.cls):
            every += [pd.property_name for pd in self.model.classes[c].propertydefs]
        got = o.allkeys()
        ck(sorted(got) == sorted(every), "allkeys", lambda: "%s.allkeys() gives %s, the class has %s" % (
            n.cls, sorted(got), sorted(every)))
        present = [k for k in o.keys() if k != "ObjClass"]
        ck(sorted(present) == sorted(n.props), "keys", lambda: "%s.keys() gives %s, present are %s" % (
            n.cls, sorted(present), sorted(n.props)))
        names = [p.name for p in o.properties() if p.name != "ObjClass"]
        ck(sorted(names) == sorted(n.props), "keys", lambda: "%s.properties() gives %s" % (n.cls, sorted(names)))
        mark = object()
        for name, pd in sorted(self.model.props(n.cls).items()):
            if name in n.props:
                ck(name in o, "keys", lambda: "%s in %s is False" % (name, n.cls))
                p, q = o.get(name, mark), o[name]
                ck(p is q and p is o.get(name, mark, False) and p.name == name and p.pid == pd.pid, "keys", lambda:
                   "%s.%s: get and [] differ" % (n.cls, name))
                ck(uid(p.propertydef.auid) == pd.auid and bool(p.propertydef.optional) == bool(pd.optional) and
                   bool(p.unique) == pd.unique and p.typedef is pd.td, "definition", lambda:
                   "%s.%s has the wrong definition" % (n.cls, name))
                if n.props[name].kind == "data":
                    v = o.getvalue(name, mark)
                    w = p.value
                    ck(v is not mark and aafvals.same(v, w), "getvalue", lambda: "%s.%s: getvalue %s, value %s" % (
                        n.cls, name, short(v), short(w)))
            else:
                ck(name not in o, "keys", lambda: "%s in %s is True" % (name, n.cls))
                ck(o.get(name, mark, False) is mark, "keys", lambda: "%s.get(%s, allkeys=False) finds something" % (
                    n.cls, name))
                ck(o.getvalue(name, mark) is mark and o.getvalue(name) is None, "getvalue", lambda:
                   "%s.getvalue(%s) of an absent property is not the default" % (n.cls, name))
                p = o.get(name, mark)
                ck(p is not mark and p.name == name and p.pid == pd.pid, "keys", lambda:
                   "%s.get(%s) of an absent property" % (n.cls, name))
                if pd.form in (DATA, STRONG, WEAK, STREAM):
                    ck(p.value is None, "absent", lambda: "%s.%s is absent, its value is %s" % (n.cls, name, short(p.value)))
                elif pd.form in (SVEC, SSET, WVEC, WSET):
                    ck(len(p) == 0 and list(p) == [], "absent", lambda: "%s.%s is absent, it holds %s" % (
                        n.cls, name, short(list(p))))
        for bad in ("No Such", "", "nosuch%d" % rng.randrange(9), None, 5):
            ck(bad not in o and o.get(bad) is None and o.get(bad, 7) == 7 and o.getvalue(bad, 7) == 7, "keys", lambda:
               "%s has a property %r" % (n.cls, bad))
            self.ctx.raises((KeyError,), "keys", lambda: o[bad])
            if self.f.mode != "rb":
                def delete():
                    del o[bad]
                self.ctx.raises((KeyError,), "keys", delete)

    # --- printing -------------------------------------------------------------------
    def printed(self, o):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            o.dump()
        return out.getvalue()

    def op_dump(self):
        rng, ck = self.rng, self.ctx.check
        n = self.pick_node()
        if n is None:
            return False
        o = self.obj(n)
        self.look("dump", n)
        text = self.printed(o)
        self.ctx.note("dumps")
        total = {}
        for c in n.walk():
            r = repr(self.obj(c))
            ck(isinstance(r, str) and r, "repr", lambda: "repr of a %s is %r" % (c.cls, r))
            for k, v in c.props.items():
                total[k] = total.get(k, 0) + 1
                self.ctx.note("dumped_properties")
                if v.kind == "data" and isinstance(v.v, (int, str)) and not isinstance(v.v, bool):
                    ck(str(v.v) in text, "dump", lambda: "the dump of %s does not show %s.%s = %s" % (
                        n.cls, c.cls, k, short(v.v)))
        for k, count in total.items():
            ck(text.count(k) >= count, "dump", lambda: "the dump of %s shows %d properties %s of %d" % (
                n.cls, text.count(k), k, count))
        for p in list(o.properties()):
            r = repr(p)
            ck(isinstance(r, str) and r, "repr", lambda: "repr of property %s is %r" % (p.name, r))

    # --- definitions ------------------------------------------------------------------
    def op_lookup(self):
        rng, ck = self.rng, self.ctx.check
        md = self.f.metadict
        self.ctx.log("look", "definitions")
        tds = list(md["TypeDefinitions"].value)
        cds = list(md["ClassDefinitions"].value)
        byname = {}
        for t in tds:
            byname.setdefault(t.type_name, []).append(t)
        for t in rng.sample(tds, min(len(tds), 25)):
            self.ctx.note("lookups", 5)
            a = uid(t.auid)
            for form in (AUID(a), a, a.upper(), "urn:uuid:" + a if rng.random() < 0 else a, t):
                ck(md.lookup_typedef(form) is t, "lookup-type", lambda: "the type %s is not found by %r" % (t, form))
            ck(md.lookup_typedef(t.type_name) in byname[t.type_name], "lookup-type", lambda:
               "the type %s is not found by its name" % t)
            ck(t.root is self.f and t.type_name in repr(t), "lookup-type", lambda: "repr of a type is %r" % t)
        byname = {}
        for c in cds:
            byname.setdefault(c.class_name, []).append(c)
        for c in rng.sample(cds, min(len(cds), 12)):
            self.ctx.note("lookups", 5)
            a = uid(c.auid)
            for form in (AUID(a), a, a.upper(), c):
                ck(md.lookup_classdef(form) is c, "lookup-class", lambda: "the class %s is not found by %r" % (c, form))
            ck(md.lookup_classdef(c.class_name) in byname[c.class_name], "lookup-class", lambda:
               "the class %s is not found by its name" % c)
            k = md.lookup_class(AUID(a))
            ck(k is aaf2.core.AAFObject or uid(k.class_id) == a, "lookup-helper", lambda: "%s is made by %s" % (c, k))
            if len(byname[c.class_name]) > 1:
                continue
            chain = [x.class_name for x in c.relatives()]
            ck(chain == self.model.chain(c.class_name), "relatives", lambda: "the ancestors of %s are %s, expected %s" % (
                c.class_name, chain, self.model.chain(c.class_name)))
            other = rng.choice(cds)
            want = c.class_name in [x for x in self.model.chain(other.class_name)]
            if len(byname[other.class_name]) == 1:
                ck(bool(c.isinstance(other)) == want, "relatives", lambda: "%s.isinstance(%s) is %s" % (
                    c.class_name, other.class_name, not want))
            seen = {}
            for x in c.relatives():
                for pd in x.propertydefs:
                    seen[uid(pd.auid)] = pd
            got = {uid(pd.auid): pd for pd in c.all_propertydefs()}
            ck(got == seen, "propertydefs", lambda: "%s.all_propertydefs() gives %s" % (c.class_name, got))
            for pa, pd in seen.items():
                self.ctx.note("lookups", 2)
                ck(c.lookup_propertydef(AUID(pa)) is pd, "propertydefs", lambda: "%s.%s is not found by its id" % (
                    c.class_name, pd.property_name))
                ck(c.get_propertydef_from_pid(pd.pid) is pd, "propertydefs", lambda: "%s.%s is not found by its tag" % (
                    c.class_name, pd.property_name))
        for bad in ("No Such Type", "", aafvals.rauid(rng), str(aafvals.rauid(rng))):
            ck(md.lookup_typedef(bad) is None, "lookup-type", lambda: "there is a type %r" % (bad,))
            ck(md.lookup_classdef(bad) is None, "lookup-class", lambda: "there is a class %r" % (bad,))

    # --- nothing changes -----------------------------------------------------------------
    def stare(self, k=8):
        for _ in range(k):
            getattr(self, self.rng.choice(["op_walk", "op_keys", "op_dump", "op_lookup", "op_readback"]))()

    def op_quiet(self):
        self.f.save()
        before = self.tf.getvalue()
        self.stare(self.rng.choice([3, 8]))
        ck = self.ctx.check
        ck(self.tf.getvalue() == before, "changed", "looking at the file wrote to it")
        self.f.save()
        self.ctx.note("quiet_saves")
        ck(self.tf.size == len(before), "changed", "saving after looking at the file only changed its size")
        self.verify_all("after looking", "changed")

    def tree(self):
        im = cfbref.parse(self.tf)
        self.ctx.check(not im.problems, "image", lambda: "; ".join("%s: %s" % p for p in im.problems[:4]))
        return im.tree()

    def op_idle(self):
        """a whole session of nothing but looking, in a file open for writing"""
        self.close()
        before = self.tree()
        self.forget()
        self.open("r+")
        self.stare(self.rng.choice([0, 4, 8]))
        self.close()
        self.forget()
        after = self.tree()
        self.ctx.note("idle_sessions")
        bad = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        self.ctx.check(not bad, "changed", lambda: "a session that only looked changed %s" % short(bad[:5]))
        self.open("r+")

    def read_only(self):
        """the closed file, opened for reading"""
        self.close()
        before = self.tf.getvalue()
        pool, self.pool = self.pool, []
        self.forget()
        self.open(self.rng.choice(["r", "rb"]))
        for _ in range(3):
            self.stare(4)
            self.shrink_caches()
        out = self.printed(self.f)
        self.ctx.check("Content" in out and "Dictionary" in out, "dump", "the dump of the file lacks its parts")
        self.verify_all("opened for reading", "changed")
        self.f.close()
        self.ctx.check(self.tf.getvalue() == before, "changed", "looking at a file opened for reading wrote to it")
        self.ctx.note("read_only")


def case(ctx, i):
    rng = ctx.rng
    w = World(ctx, dict(walk=14, keys=14, dump=8, lookup=3, quiet=2, idle=1, reopen=0.7, save=1, refuse=0, reuse=6, drop=6),
              maxdepth=rng.choice([2, 3]), optional=rng.choice([0.15, 0.35, 0.6]),
              setup=lambda f: custom.owner_model(f, rng))
    w.run(rng.choice([30, 60, 120]))
    w.op_quiet()
    if rng.random() < 0.7:
        w.read_only()
    else:
        w.finish()
    vfs.clear()
    ctx.sample([repr(e) for e in ctx.events[:12]] + ["%d steps" % w.nops])
