"""Copies: complete, independent, with everything they need, in the same file and into another."""
from aaf2.auid import AUID
from vlib.aafworld import AWorld, Node, Val, NOGEN, PIDSET, DATA, SVEC, SSET, snap, diff, keyb
from vlib import aafvals, custom, vfs
from vlib.harness import Violation, short

ID = "C15"
PLAN = {
    "quick": 200, "thorough": 4000,
    "rule": "two files with different registered types, classes and properties (shared ones under different local ids), each "
            "edited at random; objects of any class (mobs, components, descriptors, essence, definitions) are copied within a "
            "file and from one into the other, source open for writing or reading, then either side is edited on; the copy is "
            "compared with the specification of the source, definitions, classes and types it needs must be there, source and "
            "target's other contents unchanged; both images judged by the independent reader; distinct by (class, way, source "
            "mode, had weak references)",
    "require": {"cross_copies": 1200, "copies": 300, "images_judged": 500, "defs_brought": 80, "classes_brought": 60,
                "typed_values_copied": 60, "copied_attached": 150, "copies_edited": 500},
    "assumptions": [],
}


class World(AWorld):
    def start(self, cus, shared, order):
        """register what both files know, in another order, and what only this one knows"""
        self.cus = cus

    def op_typed(self):
        """a parameter value of a custom type: the type is named in the value"""
        made = [m for m in self.cus.made]
        if not made:
            return False
        rng = self.rng
        name, a, _, _ = rng.choice(made)
        td = self.f.metadict.lookup_typedef(AUID(a))
        if type(td).__name__ in ("TypeDefString",) and td.element_typedef.auid != AUID(aafvals.CHARACTER):
            return False
        v, e, b = aafvals.gen(rng, td)
        if b is None or isinstance(b, frozenset) or len(b) > 50000:
            return False
        if rng.random() < 0.4:
            o = self.f.create.TaggedValue("tag", v, AUID(a))
            n = Node("TaggedValue")
            n.obj = o
            self.absorb_props(n)
            n.props["Value"] = Val("data", e, b"\x4c" + AUID(a).bytes_le + b)
            self.verify(n, "typed value", "value")
            self.pool.append(n)
            self.last_typed = n
            return
        pid = aafvals.rauid(rng)
        pdef = self.f.create.ParameterDef(pid, "Param", "a parameter", AUID(a))
        self.f.dictionary.register_def(pdef)
        pn = self.absorb(pdef)
        d = self.dict()
        d.props.setdefault("ParameterDefinitions", Val("set", {})).v[keyb(pid)] = pn
        pn.parent, pn.prop = d, "ParameterDefinitions"
        o = self.f.create.ConstantValue(pid, v)
        n = Node("ConstantValue")
        n.obj = o
        self.absorb_props(n)
        n.props["Value"] = Val("data", e, b"\x4c" + AUID(a).bytes_le + b)
        self.verify(n, "typed value", "value")
        self.pool.append(n)
        self.ctx.log("typed value", name)
        self.last_typed = n

    def op_copyedit(self):
        """the lists and keyed sets of a copy go on like those of the original, and apart from it"""
        rng = self.rng
        ns = [n for n in self.nodes() if n.cls not in NOGEN and any(
              v.kind in ("set", "vec") and v.v for v in n.props.values())]
        sets = [n for n in ns if any(v.kind == "set" and v.v for v in n.props.values())]
        n = None
        if sets and rng.random() < 0.4:
            n = rng.choice(sets)
        elif rng.random() < 0.6:
            n = self.make("OperationGroup", 1)
            pd = self.model.props(n.cls)["Parameters"]
            for _ in range(rng.choice([1, 2, 3, 5])):
                c = self.make_member(n, pd, 2)
                if c is not None:
                    self.put_set(n, "Parameters", c)
            self.pool.append(n)
            slot = self.pick_node(lambda x: "MobSlot" in self.model.chain(x.cls) and self.attached(x))
            if slot is not None and rng.random() < 0.6:
                self.release(slot, "Segment")
                self.obj(slot)["Segment"].value = self.obj(n)
                slot.props["Segment"] = Val("strong", n)
                self.own(n, slot, "Segment")
        elif ns:
            n = rng.choice(ns)
        if n is None:
            return False
        o = self.obj(n)
        m = self.clone(n)
        m.obj = o.copy()
        self.pool.append(m)
        self.ctx.log("copyedit", n.cls, self.attached(n))
        both = [n, m]
        for _ in range(rng.choice([1, 3, 6])):
            x = m if rng.random() < 0.6 else n
            if x is not x.root() and not self.attached(x):
                continue
            if x is n and n.cls in NOGEN:
                continue
            pds = [pd for pd in self.model.props(x.cls).values() if pd.form in (SVEC, SSET) and self.can_set(x, pd) and
                   not self.frozen(x, pd)]
            pds = [pd for pd in pds if pd.name in x.props] or pds
            if not pds:
                break
            pd = rng.choice(sorted(pds, key=lambda p: p.name))
            if (self.set_step if pd.form == SSET else self.vec_step)(x, pd) is not False:
                self.ctx.note("copies_edited")
        for x in both:
            r = x.root()
            if r is self.root or r in self.pool:
                self.verify(x, "%s after editing a copy or its source" % x.cls, "copy-edit")
        if m in self.pool and m.parent is None and rng.random() < 0.8:
            slot = self.pick_node(lambda x: "MobSlot" in self.model.chain(x.cls) and self.attached(x))
            if slot is not None and "Segment" in self.model.chain(m.cls):
                self.release(slot, "Segment")
                self.obj(slot)["Segment"].value = self.obj(m)
                slot.props["Segment"] = Val("strong", m)
                self.own(m, slot, "Segment")
                self.ctx.note("edited_copies_attached")

    def op_reopen(self):
        AWorld.op_reopen(self)


def targets(w, n):
    """(path, key) of every weak reference below n, and definitions named by parameters"""
    for x in n.walk():
        for name, v in x.props.items():
            if v.kind in ("weak", "wvec", "wset"):
                pd = w.model.props(x.cls)[name]
                for k in ([v.v] if v.kind == "weak" else v.v):
                    yield pd.path, k
            elif name == "Definition" and "Parameter" in w.model.chain(x.cls):
                yield [2, 0x2604], bytes(v.v.bytes_le)


def bring(src, dst, n, ctx):
    """what copying n has to add to the dictionary of the other file"""
    for path, k in list(targets(src, n)):
        if path[0] == 1:
            continue
        name = PIDSET[path[-1]]
        sd = src.dict().props.get(name)
        dd = dst.dict().props.setdefault(name, Val("set", {})) if (sd and k in sd.v) else None
        if dd is None or k in dd.v:
            continue
        m = src.clone(sd.v[k])
        dd.v[k] = m
        m.parent, m.prop = dst.dict(), name
        ctx.note("defs_brought")
        bring(src, dst, sd.v[k], ctx)


def cross(src, dst, ctx, mode):
    n = None
    if getattr(src, "last_typed", None) in src.pool and src.rng.random() < 0.3:
        n = src.last_typed
        ctx.note("typed_values_copied")
    if n is None:
        n = src.pick_node(lambda n: n.cls not in NOGEN)
    if n is None:
        return
    o = src.obj(n)
    before = snap(o)
    known = set(dst.model.classes)
    ctx.log("cross copy", n.cls, src.attached(n), mode)
    c = o.copy(root=dst.f)
    m = src.clone(n)
    m.obj = c
    bring(src, dst, n, ctx)
    dst.bind()
    new = set(dst.model.classes) - known
    ctx.note("classes_brought", len(new))
    for k, x in new and [(k, src.model.classes[k]) for k in new] or []:
        ctx.check(dst.model.classes[k].auid == x.auid, "class-brought", lambda: k)
    ctx.note("cross_copies")
    weak = 0
    for path, k in targets(src, n):
        weak = 1
        if path == [1, 3]:
            ctx.check(dst.f.metadict.lookup_classdef(AUID(bytes_le=k)) is not None, "class-needed", "class not brought along")
        elif path == [1, 4]:
            ctx.check(dst.f.metadict.lookup_typedef(AUID(bytes_le=k)) is not None, "type-needed", "type not brought along")
    dst.verify(m, "copy of %s in the other file" % n.cls, "copy")
    after = snap(o)
    if after != before:
        d = diff(after, before, n.cls)
        raise Violation("copy-source", "copying changed the source at %s: %s became %s" % (d[0], short(d[2]), short(d[1])))
    dst.pool.append(m)
    if c["Definition"].value if "Definition" in m.props and "Parameter" in src.model.chain(n.cls) else False:
        k = bytes(m.props["Definition"].v.bytes_le)
        if k in src.dict().props.get("ParameterDefinitions", Val("set", {})).v:
            ctx.check(c.parameterdef.auid == m.props["Definition"].v, "parameter-definition", "not found in the other file")
    if src.rng.random() < 0.3:
        dst.verify(dst.root, "the other file after a copy", "copy-target")
        src.verify(src.root, "the source file after a copy", "copy-source")
    ctx.distinct((n.cls, src.attached(n), mode, weak, len(new) > 0))
    if dst.rng.random() < 0.6 and dst.op_reuse() is not False:
        ctx.note("copied_attached")


def case(ctx, i):
    rng = ctx.rng
    cus = {k: custom.Custom(rng, k).grow(rng.choice([3, 8])) for k in ("both", "s", "d")}
    classes = {}
    both = []
    for k in ("both", "s", "d"):
        for j in range(rng.choice([1, 2, 4])):
            parent = rng.choice(["Segment", "Locator", "TaggedValue", "Filler", "FileDescriptor", "SourceClip", "InterchangeObject"])
            props = []
            for q in range(rng.choice([1, 2])):
                t = rng.choice([m[0] for m in cus[k].made] + ["Stream", "kAAFTypeID_SegmentStrongReference", "aafString",
                                                              "kAAFTypeID_DataDefinitionWeakReferenceVector",
                                                              "DataDefinitionWeakReference",
                                                              "kAAFTypeID_LocatorStrongReferenceVector"])
                props.append(("X%s%d_%d" % (k, j, q), cus[k].auid(), None, t, True))
            classes.setdefault(k, []).append(("C%s%d" % (k, j), cus[k].auid(), parent, props))
        # properties of built-in classes
        for j in range(rng.choice([1, 2, 4])):
            t = rng.choice([m[0] for m in cus[k].made] + ["aafInt32", "aafString"])
            classes[k].append((rng.choice(["Mob", "Component", "DefinitionObject", "EssenceDescriptor", "InterchangeObject"]), None,
                               None, [("Y%s%d" % (k, j), cus[k].auid(), None, t, True)]))

    def setup(which):
        def do(f):
            todo = []
            for k in ("both", which):
                cus[k].apply(f)
                todo += classes[k]
            rng.shuffle(todo)
            for name, a, parent, props in todo:
                if a is None:
                    for p in props:
                        f.metadict.lookup_classdef(name).register_propertydef(*p)
                else:
                    f.metadict.register_classdef(name, a, parent, True, {p[0]: p[1:] for p in props})
            if rng.random() < 0.25:
                custom.strong_model(f, rng, which)
        return do
    weights = dict(addmob=8, copy=4, refuse=0, reopen=0.7, save=2, drop=5, adddef=6, typed=3, setdata=25, copyedit=4)
    ws = World(ctx, weights, tag="src", setup=setup("s"), maxdepth=2)
    ws.cus = cus["s"]
    wd = World(ctx, weights, tag="dst", setup=setup("d"), maxdepth=2)
    wd.cus = cus["d"]
    for w in (ws, wd):
        w.last_typed = None
        for _ in range(3):
            w.op_addmob()
        w.run(rng.choice([15, 40]))
    for _ in range(rng.choice([2, 4, 6])):
        r = rng.random()
        if r < 0.3:
            ws.close()
            ws.forget()
            ws.last_typed = None
            ws.open("r")
            for _ in range(rng.choice([3, 8])):
                cross(ws, wd, ctx, "r")
                if rng.random() < 0.3:
                    wd.run(3)
            ws.verify_all("read-only source", "copy-source")
            ws.f.close()
            ws.forget()
            ws.open("r+")
        else:
            a, b = (ws, wd) if rng.random() < 0.7 else (wd, ws)
            for _ in range(rng.choice([3, 8])):
                cross(a, b, ctx, "rw")
                if rng.random() < 0.5:
                    rng.choice([a, b]).run(rng.choice([1, 4]))
        ws.run(5)
        wd.run(5)
        ws.verify_all("source")
        wd.verify_all("target")
    first, second = (ws, wd) if rng.random() < 0.5 else (wd, ws)
    first.finish()
    second.verify_all("after the other file was closed", "independence")
    second.finish()
    vfs.clear()
    ctx.sample([repr(e) for e in ctx.events[:12]] + ["%d events" % len(ctx.events)])
