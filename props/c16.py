"""The data model of a file: registered classes, properties, types and local property ids."""
import struct

import aaf2
from aaf2.auid import AUID
from vlib.aafworld import AWorld, DATA
from vlib import aafref, aafvals, custom, vfs
from vlib.aafvals import uid
from vlib.harness import short

ID = "C16"
PLAN = {
    "quick": 240, "thorough": 5000,
    "rule": "files get random types, classes (several generations), properties (chosen, local and explicit ids) and enumeration "
            "elements registered over several sessions, with and without the built-in extensions, with built-in classes "
            "missing whose local ids vendor properties took, with definitions that share names, and registrations repeated; "
            "instances with random values live through all of it; a dictionary of everything registered is compared with "
            "lookups by id and name in every session and with the closed image, where all stored properties are decoded "
            "through the model found in the image; distinct by (event kind, extensions, session number)",
    "require": {"registered": 4000, "images_judged": 500, "definitions_compared": 30000, "stripped": 60, "merged": 20,
                "clashes": 120, "merged_values": 1500, "stored_definitions_compared": 15000},
    "assumptions": ["explicit ids given by the caller are unused ones"],
}
REFTYPES = ["kAAFTypeID_SegmentStrongReference", "kAAFTypeID_ComponentStrongReferenceVector", "Stream",
            "kAAFTypeID_LocatorStrongReferenceVector", "DataDefinitionWeakReference",
            "kAAFTypeID_DataDefinitionWeakReferenceVector", "kAAFTypeID_TaggedValueStrongReferenceVector"]
PARENTS = ["Segment", "Component", "EssenceDescriptor", "Locator", "TaggedValue", "InterchangeObject", "FileDescriptor",
           "SourceClip", "Filler", "NetworkLocator", "MobSlot", "CompositionMob", "DigitalImageDescriptor"]


class Spec(object):
    def __init__(self):
        self.types = {}      # auid -> (category, name, args)
        self.classes = {}    # auid -> dict(name, parent auid, concrete, props)
        self.props = {}      # class auid -> {auid: dict(name, pid, type, optional)}


def type_problem(td, cat, name, args):
    if td.type_name != name:
        return "name %r" % td.type_name
    if cat == "ints":
        return None if (td.size, bool(td.signed)) == (args[1], args[2]) else "size or sign differs"
    if cat == "enums":
        return None if td.elements == args[2] and uid(td.element_typedef.auid) == args[1] else "elements %s" % short(td.elements)
    if cat == "extenums":
        got = {str(k): v for k, v in td.elements.items()}
        return None if got == args[1] else "elements %s, expected %s" % (short(got), short(args[1]))
    if cat == "extenums+":       # a built-in one, which extensions may add to
        got = {str(k): v for k, v in td.elements.items()}
        return None if all(got.get(k) == v for k, v in args[1].items()) else "elements %s, expected %s" % (
            short(got), short(args[1]))
    if cat == "records":
        got = list(zip(td.member_names, [uid(t.auid) for t in td.member_types]))
        return None if got == [tuple(x) for x in args[1]] else "fields %s" % short(got)
    if cat == "fixed_arrays":
        return None if (uid(td.element_typedef.auid), td.size) == (args[1], args[2]) else "element or size differs"
    if cat in ("var_arrays", "sets", "strings"):
        return None if uid(td.element_typedef.auid) == args[1] else "element differs"
    if cat == "renames":
        return None if uid(td.renamed_typedef.auid) == args[1] else "renamed type differs"
    return "category"


class World(AWorld):
    def start(self):
        self.spec = Spec()
        self.cus = custom.Custom(self.rng)
        self.session = 0
        self.names = 0
        self.pids = {}          # property auid -> pid once seen

    def count(self, what):
        self.ctx.note("registered")
        self.ctx.note("op_reg_" + what)
        self.ctx.distinct((what, self.ext, min(self.session, 4)))

    def op_regtype(self):
        c = self.cus
        c.types = {}
        k = len(c.made)
        c.grow(self.rng.choice([1, 3]))
        c.apply(self.f)
        for cat, d in c.types.items():
            for name, args in d.items():
                self.spec.types[args[0]] = (cat, name, args)
        self.ctx.log("register types", [m[0] for m in c.made[k:]])
        self.count("type")

    def op_regelement(self):
        rng = self.rng
        c = [a for a, t in sorted(self.spec.types.items()) if t[0] in ("enums", "extenums", "extenums+")]
        builtin = rng.random() < 0.3 or not c
        if builtin:
            tds = [t for t in self.f.metadict["TypeDefinitions"].value if type(t).__name__ == "TypeDefExtEnum" and
                   uid(t.auid) not in self.spec.types]
            if not tds:
                return False
            td = rng.choice(sorted(tds, key=lambda t: str(t.auid)))
            cat, name = "extenums+", td.type_name
            args = (uid(td.auid), {str(k): v for k, v in td.elements.items()})
            self.spec.types[args[0]] = (cat, name, args)
        else:
            a = rng.choice(c)
            cat, name, args = self.spec.types[a]
            td = self.f.metadict.lookup_typedef(AUID(a))
        self.names += 1
        en = "Element %d" % self.names
        if cat == "enums":
            size, signed = custom.INTINFO[args[1]]
            v = min(aafvals.rint(rng, size, signed), (1 << 63) - 1)
            if v in args[2]:
                return False
            args[2][v] = en
            td.register_element(en, v)
        else:
            v = aafvals.rauid(rng)
            args[1][str(v)] = en
            td.register_element(en, v)
        self.ctx.log("register element", name, en, str(v))
        self.count("element")

    def newpid(self):
        r = self.rng.random()
        if r < 0.6:
            return None
        used = set()
        for c in self.f.metadict.classdefs_by_auid.values():
            used |= set(p.pid for p in c.propertydefs)
        used |= set(self.pids.values())
        while True:
            p = self.rng.choice([self.rng.randint(0x8000, 0xffff), self.rng.randint(0xff00, 0xffff),
                                 self.rng.randint(0x7000, 0x7fff)])
            if p not in used and not (p >= 0x8000 and p in self.f.metadict.local_pids):
                return p

    def typeref(self):
        """(what to pass, type auid)"""
        rng = self.rng
        if self.cus.made and rng.random() < 0.6:
            name, a, _, _ = rng.choice(self.cus.made)
        else:
            td = self.f.metadict.lookup_typedef(rng.choice(REFTYPES + ["aafString", "aafInt32", "Rational", "AUID", "Boolean"]))
            name, a = td.type_name, uid(td.auid)
        return (name if rng.random() < 0.6 else a), a

    def newprops(self, k):
        out, spec = {}, {}
        for _ in range(k):
            self.names += 1
            t, ta = self.typeref()
            a = self.cus.auid()
            pid = self.newpid()
            while pid is not None and pid in [s["pid"] for s in spec.values()]:
                pid = None
            n = "XP%d%s" % (self.names, self.rng.choice(["", " \u00e9"]))
            out[n] = (a, pid, t, True)
            spec[a] = dict(name=n, pid=pid, type=ta, optional=True)
        # explicit ids first: the next free one could be one of them
        out = dict(sorted(out.items(), key=lambda x: x[1][1] is None))
        return out, spec

    def op_regclass(self):
        rng = self.rng
        own = sorted(self.spec.classes)
        if own and rng.random() < 0.4:
            pa = rng.choice(own)
            pn = self.spec.classes[pa]["name"]
        else:
            pn = rng.choice(PARENTS)
            pa = uid(self.f.metadict.lookup_classdef(pn).auid)
        self.names += 1
        name = "XC%d%s" % (self.names, rng.choice(["", " x", "\u4e2d"]))
        a = self.cus.auid()
        props, spec = self.newprops(rng.choice([0, 1, 3]))
        concrete = rng.random() < 0.8
        args = (name, a if rng.random() < 0.5 else AUID(a), pn if rng.random() < 0.5 else pa if rng.random() < 0.5 else
                AUID(pa), concrete, props)
        self.ctx.log("register class", name, pn, sorted(props))
        self.f.metadict.register_classdef(*args)
        self.spec.classes[a] = dict(name=name, parent=pa, concrete=concrete)
        self.spec.props[a] = spec
        self.bind()
        self.check_live([a])
        self.count("class")

    def op_regprop(self):
        rng = self.rng
        own = sorted(self.spec.classes)
        if own and rng.random() < 0.5:
            a = rng.choice(own)
        else:
            a = uid(self.f.metadict.lookup_classdef(rng.choice(PARENTS)).auid)
        props, spec = self.newprops(rng.choice([1, 2]))
        c = self.f.metadict.lookup_classdef(AUID(a))
        self.ctx.log("register property", c.class_name, sorted(props))
        for n, args in props.items():
            c.register_propertydef(n, *args)
        self.spec.props.setdefault(a, {}).update(spec)
        self.bind()
        self.check_live([a])
        self.count("property")

    def op_again(self):
        """registering what is known already changes nothing"""
        rng = self.rng
        own = sorted(self.spec.classes)
        if not own:
            return False
        a = rng.choice(own)
        d = self.spec.classes[a]
        props = {}
        for pa, p in self.spec.props[a].items():
            props[p["name"]] = (pa, p["pid"] if rng.random() < 0.5 else None, p["type"], p["optional"])
        self.ctx.log("register again", d["name"])
        self.f.metadict.register_classdef(d["name"], a, AUID(d["parent"]), d["concrete"], props)
        c = self.f.metadict.lookup_classdef(AUID(a))
        for n, args in sorted(props.items()):
            if rng.random() < 0.3:
                p = c.register_propertydef(n, *args)
                self.ctx.check(p is not None and p in list(c.propertydefs), "again", lambda: "registering %s again gives %s" % (n, p))
        self.bind()
        self.check_live([a])
        self.count("again")

    def check_live(self, only=None):
        md = self.f.metadict
        ck = self.ctx.check
        for a in (only or sorted(set(self.spec.classes) | set(self.spec.props))):
            c = md.lookup_classdef(AUID(a))
            ck(c is not None and uid(c.auid) == a, "class-lost", lambda: "class %s is not known" % self.spec.classes.get(a))
            d = self.spec.classes.get(a)
            if d is not None:
                self.ctx.note("definitions_compared")
                got = (c.class_name, uid(c.parent.auid), bool(c.concrete))
                ck(got == (d["name"], d["parent"], d["concrete"]), "class", lambda: "class %s is %s" % (d, got))
                ck(md.lookup_classdef(d["name"]) is c, "class-name", lambda: "lookup of %s" % d["name"])
            props = {uid(p.auid): p for p in c.propertydefs}
            for pa, s in self.spec.props.get(a, {}).items():
                p = props.get(pa)
                ck(p is not None, "property-lost", lambda: "%s.%s is not known" % (c.class_name, s["name"]))
                self.ctx.note("definitions_compared")
                got = (p.property_name, uid(p.typedef.auid), bool(p.optional))
                ck(got == (s["name"], s["type"], s["optional"]), "property", lambda: "%s: %s" % (s, got))
                if s["pid"] is not None:
                    ck(p.pid == s["pid"], "property-id", lambda: "%s: id %04x" % (s, p.pid))
                else:
                    ck(0x8000 <= p.pid <= 0xffff, "property-id", lambda: "%s: id %04x is not local" % (s, p.pid))
                old = self.pids.setdefault(pa, p.pid)
                ck(old == p.pid, "property-id", lambda: "%s: id was %04x, now %04x" % (s, old, p.pid))
                ck(c.get_propertydef_from_pid(p.pid) is p, "property-lookup", lambda:
                   "%s.%s is not found by its id %04x" % (c.class_name, s["name"], p.pid))
            if d is not None:
                extra = set(props) - set(self.spec.props.get(a, {}))
                ck(not extra, "property", lambda: "%s has unknown properties %s" % (d["name"], extra))
        if only:
            return
        td = md.lookup_typedef("aafChar")
        if td is not None:
            ck(td.size == 1, "generic-character", lambda: "size of a character is %r" % td.size)
        for a, (cat, name, args) in self.spec.types.items():
            td = md.lookup_typedef(AUID(a))
            ck(td is not None, "type-lost", lambda: "type %s is not known" % name)
            self.ctx.note("definitions_compared")
            w = type_problem(td, cat, name, args)
            ck(w is None, "type", lambda: "%s %s: %s" % (cat, name, w))
            ck(md.lookup_typedef(name) is td, "type-name", lambda: "lookup of %r" % name)
        self.check_pids([(c.class_name, p.property_name, p.pid) for c in md["ClassDefinitions"].value
                         for p in c.propertydefs])

    def check_pids(self, triples):
        seen = {}
        for c, n, pid in triples:
            if pid >= 0x8000:
                self.ctx.check(pid not in seen, "duplicate-id", lambda: "local id %04x is used by %s.%s and %s.%s" % (
                    (pid,) + seen[pid] + (c, n)))
                seen[pid] = (c, n)
        self.ctx.note("local_ids_compared", len(seen))

    def judge(self, required=True):
        A = AWorld.judge(self, required)
        ck = self.ctx.check
        self.check_pids([(c["name"], p["name"], p["pid"]) for c in A.classes.values() for p in c["props"].values()])
        by = {uid(k): c for k, c in A.classes.items()}
        for a in set(self.spec.classes) | set(self.spec.props):
            c = by.get(a)
            ck(c is not None, "class-not-stored", lambda: "class %s" % self.spec.classes.get(a))
            d = self.spec.classes.get(a)
            self.ctx.note("stored_definitions_compared")
            if d is not None:
                ck((c["name"], uid(c["parent"]), c["concrete"]) == (d["name"], d["parent"], d["concrete"]), "class-stored",
                   lambda: "%s stored as %s" % (d, short(c)))
            pr = {uid(p["auid"]): p for p in c["props"].values()}
            for pa, s in self.spec.props.get(a, {}).items():
                p = pr.get(pa)
                ck(p is not None, "property-not-stored", lambda: "%s.%s" % (c["name"], s["name"]))
                self.ctx.note("stored_definitions_compared")
                ck((p["name"], uid(p["type"]), p["optional"], p["pid"]) == (s["name"], s["type"], s["optional"], self.pids[pa]),
                   "property-stored", lambda: "%s.%s stored as %s" % (c["name"], s, p))
        ty = {uid(k): t for k, t in A.types.items()}
        for a, (cat, name, args) in self.spec.types.items():
            t = ty.get(a)
            ck(t is not None and t["name"] == name, "type-not-stored", lambda: "%s %r" % (cat, name))
            self.ctx.note("stored_definitions_compared")
            o = t["obj"]
            want = None
            if cat == "enums":
                got = dict(zip(struct.unpack("<%dq" % (len(o.props[0x16].data) // 8), o.props[0x16].data),
                               strs(o.props[0x15].data)))
                want = args[2]
            elif cat.startswith("extenums"):
                d = o.props[0x20].data
                got = dict(zip([uid(aafref.auid(d[i:i + 16])) for i in range(0, len(d), 16)], strs(o.props[0x1f].data)))
                want = args[1]
                if cat.endswith("+"):
                    got = {k: v for k, v in got.items() if k in want}
            elif cat == "records":
                got = strs(o.props[0x1d].data)
                want = [x[0] for x in args[1]]
            if want is not None:
                ck(got == want, "type-stored", lambda: "%s %r stored as %s, expected %s" % (cat, name, short(got), short(want)))
        return A

    def strip(self):
        """a file without some built-in classes, whose local ids other properties took"""
        rng = self.rng
        md = self.f.metadict
        used = set(n.cls for n in self.nodes(defs=True)) | set(c["name"] for c in self.spec.classes.values())
        for n in list(used):
            used |= set(self.model.chain(n))
        refd = set()
        for t in md["TypeDefinitions"].value:
            if type(t).__name__ in ("TypeDefStrongRef", "TypeDefWeakRef"):
                refd.add(t.ref_classdef.class_name)
        weak = set()
        for n in self.nodes(defs=True):
            for v in n.props.values():
                if v.kind == "weak":
                    weak.add(v.v)
                elif v.kind in ("wvec", "wset"):
                    weak |= set(v.v)
        refd |= set(n for n, cd in self.model.classes.items() if bytes(cd.auid.bytes_le) in weak)
        own = set(self.spec.props)
        par = set(self.model.parents.values())
        c = [n for n in sorted(self.model.classes) if n not in used and n not in refd and n not in par and
             uid(self.model.classes[n].auid) not in own and "MetaDefinition" not in self.model.chain(n) and
             n not in ("Header", "Dictionary", "ContentStorage", "Root", "MetaDictionary") and
             any(p.pid >= 0x8000 for p in self.model.classes[n].propertydefs)]
        rng.shuffle(c)
        c = c[:rng.choice([1, 2, 5])]
        fam = [n for n in self.model.classes if "MCALabelSubDescriptor" in self.model.chain(n)]
        if rng.random() < 0.3 and not any(n in used or n in refd or uid(self.model.classes[n].auid) in own for n in fam):
            # the classes that need strings of 8 bit characters
            c = fam + [n for n in c if n not in fam]
        free = []
        for n in c:
            cd = self.model.classes[n]
            free += [p.pid for p in cd.propertydefs if p.pid >= 0x8000]
            md["ClassDefinitions"].pop(cd.auid)
            for p in cd.propertydefs:
                md.local_pids.discard(p.pid)
            self.ctx.note("stripped")
        if rng.random() < 0.5:
            free += self.strip_types(weak)
        if not free:
            return
        self.bind()
        rng.shuffle(free)
        for pid in free[:rng.choice([1, 2, 4])]:
            cn = rng.choice(["EssenceDescriptor", "Mob", "Component", "InterchangeObject"])
            cd = md.lookup_classdef(cn)
            t, ta = self.typeref()
            self.names += 1
            a, n = self.cus.auid(), "XV%d" % self.names
            cd.register_propertydef(n, a, pid, t, True)
            self.spec.props.setdefault(uid(cd.auid), {})[a] = dict(name=n, pid=pid, type=ta, optional=True)
            self.pids[a] = pid
        self.bind()
        self.ctx.log("stripped", c, ["%04x" % p for p in free])

    def strip_types(self, weak):
        """types nothing in the file refers to, as in the files of programs that only store what they use"""
        rng, md = self.rng, self.f.metadict
        ts = {uid(t.auid): t for t in md["TypeDefinitions"].value}
        free = []
        for _ in range(rng.choice([1, 3, 10, 40])):
            refd = set(self.spec.types)
            for o in list(md["TypeDefinitions"].value) + [p for c in md["ClassDefinitions"].value for p in c.propertydefs]:
                for p in list(o.property_entries.values()):
                    refs = getattr(p, "references", None)
                    if refs is None:
                        refs = [getattr(p, "ref", None)]
                    refd |= set(uid(r) for r in refs if isinstance(r, AUID))
                if type(o).__name__ == "PropertyDef":
                    refd.add(uid(o.typedef.auid))
            c = [a for a in sorted(ts) if a not in refd and bytes(ts[a].auid.bytes_le) not in weak]
            if not c:
                break
            like = [a for a in (custom.CHAR8, "01100400-0000-0000-060e-2b3401040101") if a in c]
            a = like[0] if like and rng.random() < 0.6 else rng.choice(c)
            t = ts.pop(a)
            md["TypeDefinitions"].pop(t.auid)
            self.ctx.note("stripped_types")
            self.ctx.log("strip type", t.type_name)
            if a == custom.CHAR8 and rng.random() < 0.7:
                # and what describes it
                cd = md.lookup_classdef("TypeDefinitionGenericCharacter")
                if cd.auid in md["ClassDefinitions"]:
                    md["ClassDefinitions"].pop(cd.auid)
                    for p in cd.propertydefs:
                        free.append(p.pid)
                        md.local_pids.discard(p.pid)
                    self.ctx.note("stripped_generic")
        return free

    def op_reopen(self):
        if self.rng.random() < 0.5:
            for _ in range(20):
                n = self.pick_node()
                pd = [p for p in self.model.props(n.cls).values() if p.name.startswith("X") and self.can_set(n, p)]
                if pd:
                    self.set_prop(n, self.rng.choice(sorted(pd, key=lambda p: p.name)), 1)
            self.verify_all("before closing")
        if self.rng.random() < 0.6:
            self.strip()
        before = set(self.model.classes)
        self.ext = self.rng.random() < 0.6
        self.session += 1
        AWorld.op_reopen(self)
        if set(self.model.classes) - before:
            self.ctx.note("merged")
        self.check_live()

    def finish(self):
        self.check_live()
        AWorld.finish(self)


def strs(data):
    s = bytes(data).decode("utf-16le")
    return s.split("\0")[:-1]


def clash(ctx):
    """definitions that share a name with others stay distinct by id"""
    rng = ctx.rng
    path = vfs.new("clash-%d.aaf" % ctx.index)
    ext = rng.random() < 0.5
    f = aaf2.open(path, "w", extensions=ext)
    md = f.metadict
    cus = custom.Custom(rng)
    want, twant, uses = {}, {}, []
    builtin = {}
    names = []
    for k in range(rng.choice([3, 6, 10])):
        r = rng.random()
        if r < 0.4 or not names:
            name = rng.choice(["Sequence", "Mob", "TimelineMobSlot", "EssenceDescriptor", "Filler"])
        else:
            name = rng.choice(names)
        if rng.random() < 0.3:
            name = "XClash%d" % k
        names.append(name)
        if name in md.classdefs_by_name:
            builtin.setdefault(name, uid(md.classdefs_by_name[name].auid))
            ctx.note("clashes")
        a = cus.auid()
        pn = "P%d" % k
        pa = cus.auid()
        md.register_classdef(name, a, "Filler", True, {pn: (pa, None, "aafInt32", True)})
        want[a] = (name, pn)
        builtin.setdefault(name, a)
        # and a type with the name of another
        tname = rng.choice(["aafInt32", "Rational", "AUID", "XType", "aafString"])
        ta = cus.auid()
        e = rng.choice(custom.PLAIN[:4])
        e2 = rng.choice(custom.PLAIN)
        md.register_typedef_model({"renames": {tname: (ta, e)}} if rng.random() < 0.5 else
                                  {"var_arrays": {tname: (ta, e)}})
        twant[ta] = (tname, e)
        ra = cus.auid()
        md.register_typedef_model({"records": {"XRec%d" % k: (ra, (("a", e2), ("b", aafvals.RATIONAL), ("c", e)))}})
        pa2 = cus.auid()
        f.metadict.lookup_classdef("Component").register_propertydef("R%d" % k, pa2, None, AUID(ra), True)
        uses.append(("R%d" % k, e2, e))
    mob = f.create.CompositionMob("m")
    f.content.mobs.append(mob)
    vals = []
    seq = f.create.Sequence("picture")
    mob.create_timeline_slot(25).segment = seq
    for name, e2, e in uses:
        s2, g2 = custom.INTINFO[e2]
        s1, g1 = custom.INTINFO[e]
        v = {"a": aafvals.rint(rng, s2, g2), "b": aafvals.rational(rng)[1], "c": aafvals.rint(rng, s1, g1)}
        fil = f.create.Filler("picture", len(vals) + 1)
        fil[name].value = v
        seq.components.append(fil)
        vals.append((name, v, e2, e))

    def check(f, when):
        md = f.metadict
        for a, (name, pn) in want.items():
            c = md.lookup_classdef(AUID(a))
            ctx.note("definitions_compared")
            ctx.check(c is not None and uid(c.auid) == a and c.class_name == name and
                      [p.property_name for p in c.propertydefs] == [pn], "clash-class", lambda:
                      "%s: class %s %s is %s" % (when, name, a, c))
        for name, a in builtin.items():
            c = md.lookup_classdef(name)
            ctx.check(c is not None and uid(c.auid) == a, "clash-name", lambda:
                      "%s: the name %s leads to %s, not to the first class that had it" % (when, name, c and c.auid))
        for a, (name, e) in twant.items():
            t = md.lookup_typedef(AUID(a))
            ctx.check(t is not None and t.type_name == name, "clash-type", lambda: "%s: type %s" % (when, name))
            ctx.note("definitions_compared")
        m = list(f.content.mobs)[0]
        comps = list(m.slots[0].segment.components)
        for (name, v, e2, e), o in zip(vals, comps):
            got = o[name].value
            ctx.check(aafvals.same(got, v), "clash-value", lambda: "%s: %s reads %s, expected %s" % (
                when, name, short(got), short(v)))
            s2, g2 = custom.INTINFO[e2]
            s1, g1 = custom.INTINFO[e]
            enc = v["a"].to_bytes(s2, "little", signed=g2) + struct.pack("<ii", v["b"].numerator, v["b"].denominator) + \
                v["c"].to_bytes(s1, "little", signed=g1)
            ctx.check(bytes(o[name].data) == enc, "clash-encoding", lambda: "%s: %s" % (when, name))
    check(f, "in session")
    f.close()
    for mode in ("r", "r+", "r"):
        f = aaf2.open(path, mode, extensions=rng.random() < 0.5)
        check(f, "after reopening")
        f.close()
    ctx.note("registered", len(want))


def merge(ctx):
    """enumerations two files share but extended differently, used inside other types by objects that get copied"""
    rng = ctx.rng
    ext = rng.random() < 0.6
    paths = [vfs.new("merge-%d-%d.aaf" % (ctx.index, k)) for k in (0, 1)]
    fs = [aaf2.open(p, "w", extensions=ext) for p in paths]
    src, dst = fs
    cus = custom.Custom(rng)
    size, signed = 4, True
    enums = []                       # [type name, auid, is extensible, source elements, destination elements]
    for k in range(rng.choice([1, 2, 3])):
        x = rng.random() < 0.5
        a, name = cus.auid(), "XShared%d" % k
        els = {}
        for j in range(rng.choice([1, 2, 6])):
            els[cus.auid() if x else rng.randint(-100, 100)] = "first %d" % j
        enums.append([name, a, x, els, dict(els)])
    for x in (True, True, False):
        # a built-in one
        if rng.random() < 0.5:
            ts = sorted([t for t in dst.metadict["TypeDefinitions"].value if type(t).__name__ ==
                         ("TypeDefExtEnum" if x else "TypeDefEnum") and t.type_name != "Boolean" and
                         (x or uid(t.element_typedef.auid) in custom.PLAIN)], key=lambda t: str(t.auid))
            t = rng.choice(ts)
            if uid(t.auid) in [e[1] for e in enums]:
                continue
            els = {(str(q) if x else q): n for q, n in t.elements.items()}
            enums.append([t.type_name, uid(t.auid), x, els, dict(els)])
    shapes = []                      # (type name, auid, wrap function)
    model = {}
    for k, e in enumerate(enums):
        if rng.random() < 0.3:
            shapes.append((e[1], e[1], lambda v: v))
        for kind in rng.sample(["var_arrays", "fixed_arrays", "records", "renames", "sets", "nested"], rng.choice([1, 3, 6])):
            a, name = cus.auid(), "XIn%s%d" % (kind, k)
            if kind == "var_arrays":
                args, wrap = (a, e[1]), (lambda v: [v, v])
            elif kind == "sets":
                args, wrap = (a, e[1]), (lambda v: {v})
            elif kind == "fixed_arrays":
                args, wrap = (a, e[1], 3), (lambda v: [v, v, v])
            elif kind == "records":
                args, wrap = (a, (("a", custom.PLAIN[0]), ("b", e[1]))), (lambda v: {"a": 7, "b": v})
            elif kind == "renames":
                args, wrap = (a, e[1]), (lambda v: v)
            else:
                r = cus.auid()
                model.setdefault("records", {})[name + "Rec"] = (r, (("x", e[1]), ("y", aafvals.RATIONAL)))
                args, wrap = (a, r), (lambda v: [{"x": v, "y": "1/2"}])
                kind = "var_arrays"
            model.setdefault(kind, {})[name] = args
            shapes.append((e[1], a, wrap))
    which = rng.choice(["both", "both", "source"])
    # shared enumerations are known to both files, what is made of them not always
    for f in fs:
        m = {"enums": {}, "extenums": {}}
        for name, a, x, els, _ in enums:
            if name.startswith("XShared"):
                if x:
                    m["extenums"][name] = (a, dict(els))
                else:
                    m["enums"][name] = (a, custom.PLAIN[6], dict(els))
        f.metadict.register_typedef_model(m)
        if which == "both" or f is src:
            # records first: other types are made of them
            for cat in ("records", "var_arrays", "fixed_arrays", "sets", "renames"):
                if cat in model:
                    f.metadict.register_typedef_model({cat: model[cat]})
    n = 0
    for side in (0, 1):
        for name, a, x, es, ed in enums:
            for _ in range(rng.choice([0, 1, 3])):
                n += 1
                while True:
                    v = cus.auid() if x else rng.randint(0, 120)
                    if v not in es and v not in ed:
                        break
                fs[side].metadict.lookup_typedef(AUID(a)).register_element("later %d" % n, AUID(v) if x else v)
                (es, ed)[side][v] = "later %d" % n
                ctx.note("registered")
    # a class or a property of a built-in class holds them
    props = [("M%d" % k, cus.auid(), a, wrap, e) for k, (e, a, wrap) in enumerate(shapes)]
    own = rng.random() < 0.5
    cname = "XHolder" if own else rng.choice(["Filler", "Component", "InterchangeObject"])
    cauid = cus.auid()
    known = rng.random() < 0.4 and which == "both"
    if not own and rng.random() < 0.5:
        dst.metadict.lookup_classdef(cname).register_propertydef("Other", cus.auid(), None, "aafInt32", True)
    for f in (fs if known else fs[:1]):
        pl = list(props)
        rng.shuffle(pl)
        if own:
            f.metadict.register_classdef(cname, cauid, "Filler", True, {p[0]: (p[1], None, AUID(p[2]), True) for p in pl})
        else:
            for p in pl:
                f.metadict.lookup_classdef(cname).register_propertydef(p[0], p[1], None, AUID(p[2]), True)
    by = {e[1]: e for e in enums}
    want = []
    mob = src.create.CompositionMob("m")
    src.content.mobs.append(mob)
    seq = src.create.Sequence("picture")
    mob.create_timeline_slot(25).segment = seq
    for k in range(rng.choice([2, 5, 12])):
        o = src.create.from_name(cname) if own else src.create.Filler("picture", k)
        if own:
            o["DataDefinition"].value = src.dictionary.lookup_datadef("picture")
            o["Length"].value = k
        w = {}
        for name, _, a, wrap, e in props:
            v = wrap(rng.choice(sorted(by[e][3].values())))
            o[name].value = v
            w[name] = v
        seq.components.append(o)
        want.append(w)
    tags = []
    for k in range(rng.choice([0, 1, 3])):
        e, a, wrap = rng.choice(shapes)
        v = wrap(rng.choice(sorted(by[e][3].values())))
        if isinstance(v, set):
            continue
        tv = src.create.TaggedValue("t%d" % k, v, AUID(a))
        mob["UserComments"].append(tv)
        tags.append(v)
    ctx.log("merge", [(e[0], len(e[3]), len(e[4])) for e in enums], len(shapes), which, known, cname)

    def plain(v):
        if isinstance(v, dict):
            return {q: plain(x) for q, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [plain(x) for x in v]
        if isinstance(v, (set, frozenset)):
            return set(v)
        return v if isinstance(v, (int, str)) else str(v)

    def check(f, when, values=True):
        for name, a, x, es, ed in enums:
            want_els = dict(es) if f is src else dict(ed)
            if f is not src and values:
                want_els.update(es)
            td = f.metadict.lookup_typedef(AUID(a))
            got = {(str(q) if x else q): v for q, v in td.elements.items()}
            used = {e for e, _, _ in shapes}
            ctx.note("definitions_compared")
            ctx.check(got == want_els if a in used and name.startswith("XShared") else
                      all(got.get(q) == v for q, v in (want_els if a in used else ed).items()), "merged-elements",
                      lambda: "%s: elements of %s are %s, expected %s" % (when, name, short(got), short(want_els)))
        if not values:
            return
        m = list(f.content.mobs)[0]
        comps = list(m.slots[0].segment.components)
        ctx.eq(len(comps), len(want), "merged-values", when)
        for o, w in zip(comps, want):
            for name, v in sorted(w.items()):
                got = plain(o[name].value)
                ctx.note("merged_values")
                ctx.check(got == plain(v), "merged-values", lambda: "%s: %s reads %s, expected %s" % (
                    when, name, short(got), short(v)))
        got = [plain(t.value) for t in m["UserComments"].value] if tags else []
        ctx.check(got == [plain(v) for v in tags], "merged-values", lambda: "%s: tagged values read %s, expected %s" % (
            when, short(got), short(tags)))
    check(dst, "destination before", False)
    check(src, "source")
    if rng.random() < 0.4:
        src.close()
        src = fs[0] = aaf2.open(paths[0], rng.choice(["r", "r+"]), extensions=ext)
    if rng.random() < 0.4:
        dst.close()
        dst = fs[1] = aaf2.open(paths[1], "r+", extensions=ext)
    m = list(src.content.mobs)[0].copy(root=dst)
    dst.content.mobs.append(m)
    check(src, "source after copying")
    check(dst, "destination")
    if rng.random() < 0.5:
        dst.save()
        check(dst, "destination after saving")
    src.close()
    dst.close()
    for mode in ("r", "r+", "r"):
        f = aaf2.open(paths[1], mode, extensions=rng.random() < 0.5)
        check(f, "destination reopened (%s)" % mode)
        f.close()
    ctx.note("merges")
    ctx.distinct(("merge", which, known, own, len(enums)))


def case(ctx, i):
    rng = ctx.rng
    if i % 6 == 5:
        clash(ctx)
    elif i % 6 == 2:
        merge(ctx)
    else:
        w = World(ctx, dict(regtype=14, regclass=10, regprop=10, regelement=8, again=4, addmob=10, setdata=50, setstrong=20,
                            vec=10, reopen=6, save=3, copy=2, refuse=0, drop=4), maxdepth=2, optional=0.3)
        w.start()
        w.run(rng.choice([50, 100, 200]))
        w.finish()
        ctx.sample([repr(e) for e in ctx.events[:12]] + ["%d steps, %d sessions" % (w.nops, w.session)])
    vfs.clear()
