"""What the library writes under a name is what the published object model calls by that name."""
import glob
import struct

import aaf2
from aaf2.auid import AUID
from vlib import aafref, aafvals, cfbref, standard, vfs
from vlib import aafworld
from vlib.aafworld import AWorld

ID = "C28"
PLAN = {
    "quick": 160, "thorough": 3000,
    "rule": "object histories are generated from a committed table of the published object model (classes, local ids, types, "
            "enumerations, drawn up once and compared with the models that other applications stored in their files): "
            "every class and property is addressed by its published name, every value is encoded from the published type, "
            "and after each close the image is read by an independent reader which expects it under the published "
            "identifications; further cases look every class, type and definition up by name, id and alias in new, "
            "reopened and other applications' files; distinct by (class, property) stored and by lookup kind",
    "require": {"images_judged": 150, "stored_objects_compared": 3000, "published_props": 60000, "published_types": 20000,
                "looked_up": 9000, "media_kinds": 200, "foreign_files": 12},
    "assumptions": ["the table is the published model: it agrees with the models in all sample files of other applications"],
}
SAMPLES = sorted(glob.glob("/repo/tests/test_files/*.aaf") + glob.glob("/repo/tests/test_files/*/*.aaf"))
P = "0d010101-0%s-0000-060e-2b3402060101"
KINDS = {P % "204": "TypeDefInt", P % "205": "strong", P % "206": "weak", P % "207": "TypeDefEnum", P % "208": "TypeDefFixedArray",
         P % "209": "TypeDefVarArray", P % "20a": "TypeDefSet", P % "20b": "TypeDefString", P % "20c": "stream",
         P % "20d": "TypeDefRecord", P % "20e": "TypeDefRename", P % "220": "TypeDefExtEnum", P % "221": "TypeDefIndirect",
         P % "222": "TypeDefOpaque", P % "223": "TypeDefCharacter"}


class Td(object):
    """a type of the table, described as vlib.aafvals expects it"""


SHIMS = {n: type(n, (Td,), {}) for n in set(KINDS.values()) | {"other"}}


class Published(object):
    """the table as the object model that drives a world"""

    def __init__(self, ext):
        self.T = standard.table()
        self.ext = ext
        self.types = {}

    def td(self, a):
        t = self.types.get(a)
        if t is not None:
            return t
        s = self.T["types"][a]
        t = SHIMS[KINDS.get(s["kind"], "other")]()
        self.types[a] = t
        t.auid = AUID(a)
        t.s = s
        n = type(t).__name__
        if n == "TypeDefInt":
            t.size, t.signed = s["0f"], bool(s["10"])
        elif n in ("TypeDefEnum", "TypeDefExtEnum"):
            els = {k: v for k, v in s["enum"].items() if self.ext or k in s.get("base", s["enum"])}
            t.elements = {(int(k) if n == "TypeDefEnum" else AUID(k)): v for k, v in els.items()}
            if n == "TypeDefEnum":
                t.element_typedef = self.td(s["14"])
        elif n in ("TypeDefFixedArray", "TypeDefVarArray", "TypeDefSet", "TypeDefString"):
            t.element_typedef = self.td(s[{"TypeDefFixedArray": "17", "TypeDefVarArray": "19", "TypeDefSet": "1a",
                                           "TypeDefString": "1b"}[n]])
            if n == "TypeDefFixedArray":
                t.size = s["18"]
        elif n == "TypeDefRename":
            t.renamed_typedef = self.td(s["1e"])
        elif n == "TypeDefRecord":
            t.fields = [(f, x) for f, x in s["fields"]]
            t.member_types = [self.td(x) for f, x in s["fields"]]
        return t


def form(td):
    n = type(td).__name__
    if n in ("strong", "weak", "stream"):
        return {"strong": aafworld.STRONG, "weak": aafworld.WEAK, "stream": aafworld.STREAM}[n]
    if n in ("TypeDefVarArray", "TypeDefSet"):
        e = type(td.element_typedef).__name__
        if e == "strong":
            return aafworld.SVEC if n == "TypeDefVarArray" else aafworld.SSET
        if e == "weak":
            return aafworld.WVEC if n == "TypeDefVarArray" else aafworld.WSET
    return aafworld.DATA


class Pd(object):
    def __init__(self, pub, model, q, d):
        self.name, self.pid, ty, self.optional, self.unique = d
        self.auid = q
        self.td = td = pub.td(ty)
        self.form = form(td)
        self.ref = self.path = None
        if q == aafworld.PARAMS_AUID:
            self.form = aafworld.SSET
        e = td if type(td).__name__ in ("strong", "weak") else getattr(td, "element_typedef", None)
        if self.form not in (aafworld.DATA, aafworld.STREAM):
            self.ref = pub.T["classes"][e.s["11" if "11" in e.s else "12"]]["name"]
        if self.form in (aafworld.WEAK, aafworld.WVEC, aafworld.WSET):
            pids = {a: x[1] for c in pub.T["classes"].values() for a, x in c["props"].items()}
            pids[ROOTMETA], pids[ROOTHEADER] = 1, 2
            self.path = [pids[x] for x in e.s["13"]]
        self.gen = self.form == aafworld.DATA and aafvals.supported(td)


ROOTMETA, ROOTHEADER = "0d010301-0101-0100-060e-2b3401010102", "0d010301-0102-0100-060e-2b3401010102"


class PubClass(object):
    pass


class PubModel(aafworld.Model):
    def __init__(self, ext):
        pub = Published(ext)
        T = pub.T
        self.pub = pub
        self.classes, self.parents = {}, {}
        for a, c in T["classes"].items():
            if c["ext"] and not ext:
                continue
            k = PubClass()
            k.auid, k.concrete, k.class_name = AUID(a), c["concrete"], c["name"]
            k.own = [(q, d) for q, d in sorted(c["props"].items())
                     if ext or d[1] is not None or q in BASEDYN]
            self.classes[c["name"]] = k
            par = T["classes"].get(c["parent"])
            self.parents[c["name"]] = par["name"] if par is not None and par is not c else None
        self._chain, self._props, self._concrete, self.height_ = {}, {}, {}, {}

    def props(self, n):
        r = self._props.get(n)
        if r is None:
            r = {}
            for c in self.chain(n):
                for q, d in self.classes[c].own:
                    if d[0] != "ObjClass":
                        r[d[0]] = Pd(self.pub, self, q, d)
            self._props[n] = r
        return r


BASEDYN = set()          # published properties without a fixed local id which belong to the base model
_models = {}


def model(ext):
    if ext not in _models:
        if not BASEDYN:
            BASEDYN.update(standard.table()["basedyn"])
        _models[ext] = PubModel(ext)
    return _models[ext]


class PWorld(AWorld):
    def bind(self):
        self.model = model(self.ext)

    def judge(self, required=True):
        A = AWorld.judge(self, required)
        published(self.ctx, A, self.tf, self.sector, edited=True)
        for n in self.nodes():
            for p in n.props:
                self.ctx.distinct((n.cls, p))
        return A


def published(ctx, A, tf, sector, other=False, edited=False):
    d, c = standard.differences(A, other=other)
    if other:
        # spelled otherwise by other applications
        d = [x for x in d if not any(k in x[1] for k in ("ElementNames: type", "MemberNames: type", "CommentMarkerUser: name",
                                                          "MediaContainerGUID: name"))]
    ctx.check(not d, "published-" + (d[0][0] if d else ""), lambda: "; ".join(x[1] for x in d[:4]))
    ctx.note("published_classes", c["classes"])
    ctx.note("published_props", c["props"])
    ctx.note("published_types", c["types"])
    T = standard.table()["definitions"]
    for name, defs in standard.definitions_of(A).items() if not (other or edited) else ():
        for a, (n, o) in defs.items():
            if a in T.get(name, {}):
                got = standard.definition(o)
                ctx.note("published_definitions")
                want = T[name][a]
                ctx.check(got[0] == want[0] and all(set(v) <= set(got[1].get(k, [])) for k, v in want[1].items()),
                          "published-definition", lambda: "%s %s is %s, published %s" % (name, a, got, want))
    if other:
        return
    hdr = bytes(tf.at(0, 32))
    sig = {4096: "0d010201-0200-0000-060e-2b3403020101", 512: "42464141-000d-4d4f-060e-2b34010101ff"}[sector]
    ctx.eq(aafref.auid(hdr[8:24]), sig, "signature", "file signature with %d byte sectors" % sector)
    if edited:
        return
    head = A.objs[A.objs["/"].props[2].child]
    ctx.eq(bytes(head.props[0x3B01].data), b"\x49\x49", "header", "byte order mark")
    ctx.eq(bytes(head.props[0x3B05].data), b"\1\2", "header", "version of the object specification")
    ctx.eq(bytes(head.props[0x3B07].data), b"\1\0\0\0", "header", "object model version")


def lookups(ctx, f, ext, what, some=None, registered=True):
    """every published class, type and definition answers to its name and its identification"""
    rng = ctx.rng
    T = standard.table()
    md = f.metadict
    pick = lambda items: rng.sample(items, min(some, len(items))) if some else items
    for a, c in pick(sorted(T["classes"].items())):
        if c["ext"] and not ext:
            continue
        w = "%s: class %s" % (what, c["name"])
        cd = md.lookup_classdef(c["name"])
        ctx.check(cd is not None and cd is md.lookup_classdef(AUID(a)), "lookup", lambda: w)
        ctx.eq((cd.class_name, str(cd.auid), bool(cd.concrete)), (c["name"], a, c["concrete"]), "lookup", w)
        if c["parent"] in T["classes"] and c["parent"] != a:
            ctx.eq(str(cd.parent.auid), c["parent"], "lookup", w + " parent")
        props = {str(p.auid): p for p in cd.propertydefs}
        for q, d in c["props"].items():
            if d[1] is None and not ext and q not in BASEDYN:
                continue
            p = props.get(q)
            ctx.check(p is not None, "lookup", lambda: "%s lacks %s" % (w, d[0]))
            got = (p.property_name, p.pid if d[1] is not None else None, str(p.typedef.auid), bool(p.optional), bool(p.unique))
            ctx.eq(got, tuple(d), "lookup", "%s.%s" % (w, d[0]))
            ctx.note("looked_up")
    al = dict(T["aliases"])
    if ext and registered:
        al.update(T["extaliases"])
    ids = {c["name"]: a for a, c in T["classes"].items()}
    for x, n in pick(sorted(al.items())):
        cd = md.lookup_classdef(x)
        ctx.check(cd is not None and str(cd.auid) == ids[n], "alias", lambda: "%s: %s is %r" % (what, x, cd))
        ctx.note("looked_up")
    for a, t in pick(sorted(T["types"].items())):
        if t["ext"] and not ext:
            continue
        td = md.lookup_typedef(t["name"])
        ctx.check(td is not None and str(td.auid) == a and td is md.lookup_typedef(AUID(a)), "lookup",
                  lambda: "%s: type %s is %r" % (what, t["name"], td))
        ctx.note("looked_up")
    d = f.dictionary
    fn = {"DataDefinitions": d.lookup_datadef, "ContainerDefinitions": d.lookup_containerdef,
          "CodecDefinitions": d.lookup_codecdef}
    for s in sorted(T["definitions"]):
        names = [n.lower() for n, _ in T["definitions"][s].values()]
        for a, (n, _) in pick(sorted(T["definitions"][s].items())):
            o = d[s].get(AUID(a))
            ctx.check(o is not None and o.name == n, "lookup", lambda: "%s: %s %s is %r" % (what, s, n, o))
            if names.count(n.lower()) == 1:
                for x in (n, n.split("_", 1)[1] if s != "CodecDefinitions" else n):
                    g = fn[s](x)
                    ctx.check(g is o, "lookup", lambda: "%s: %s yields %r" % (what, x, g))
            ctx.note("looked_up")


def case_lookups(ctx, i):
    rng = ctx.rng
    ext = rng.random() < 0.6
    sector = rng.choice([512, 4096])
    path = vfs.new("std-%d.aaf" % i)
    f = aaf2.open(path, "w", sector_size=sector, extensions=ext)
    model(ext)
    lookups(ctx, f, ext, "new file")
    ctx.distinct(("new", ext, sector))
    # media kinds reach the file as the published data definitions
    T = standard.table()["definitions"]["DataDefinitions"]
    kinds = {n.split("_", 1)[1]: a for a, (n, _) in T.items()}
    mob = f.create.CompositionMob("kinds")
    f.content.mobs.append(mob)
    used = []
    for k in rng.sample(sorted(kinds), rng.randint(3, len(kinds))):
        s = mob.create_timeline_slot(25)
        r = rng.random()
        spell = rng.choice([k, k.lower(), k.upper(), "DataDef_" + k])
        if r < 0.4:
            s.segment = f.create.Filler(spell, 10)
        elif r < 0.7:
            s.segment = f.create.Sequence(spell)
            s.segment.length = 5
        else:
            s.segment = f.create.SourceClip(media_kind=spell, length=3)
        used.append((s.slot_id, k))
        ctx.note("media_kinds")
    for s, (_, k) in zip(list(mob.slots), used):
        ctx.eq(s.segment.media_kind, k, "media-kind", "read back")
    f.close()
    tf = vfs.get(path)
    A = aafref.parse(cfbref.parse(tf))
    aafref.validate(A)
    ctx.check(not A.problems, "aaf-image", lambda: "; ".join("%s: %s" % p for p in A.problems[:4]))
    ctx.note("images_judged")
    published(ctx, A, tf, sector)
    got = {}
    for o in A.objs.values():
        if 0x4801 in o.props and 0x4803 in o.props:
            g = A.objs[o.props[0x4803].child].props[0x0201]
            got[struct.unpack("<I", o.props[0x4801].data)[0]] = aafref.auid(g.keys[0])
    ctx.eq(got, {s: kinds[k] for s, k in used}, "media-kind", "stored data definitions by slot")
    for mode, x in rng.sample([("r", ext), ("r+", ext), ("r", True), ("r", False), ("r+", True)], 2):
        have = ext or (mode == "r+" and x)
        f = aaf2.open(path, mode, extensions=x)
        lookups(ctx, f, have, "reopened %s" % mode, some=60, registered=x and mode == "r+")
        f.close()
        ext = ext or have
        ctx.distinct(("reopened", mode, x))


def case_other(ctx, i):
    """a file of another application: what it says by id is read by name"""
    rng = ctx.rng
    fn = SAMPLES[(i // 8) % len(SAMPLES)]
    with open(fn, "rb") as fp:
        data = fp.read()
    path = vfs.put("other-%d.aaf" % i, data)
    tf = vfs.get(path)
    A = aafref.parse(cfbref.parse(tf))
    if not A.classes:
        aafref.load_meta(A)
    published(ctx, A, tf, None, other=True)
    ctx.note("foreign_files")
    ctx.distinct(fn)
    T = standard.table()
    chains = {}
    f = aaf2.open(path, "r")
    seen = [0]

    def props_of(clsid):
        r = chains.get(clsid)
        if r is None:
            r, c = {}, clsid
            while c in T["classes"]:
                r.update({d[1]: (q, d) for q, d in T["classes"][c]["props"].items() if d[1] is not None})
                if T["classes"][c]["parent"] == c:
                    break
                c = T["classes"][c]["parent"]
            chains[clsid] = r
        return r

    def walk(obj, where, depth):
        o = A.objs.get(where)
        if o is None or depth > 30 or o.clsid not in T["classes"]:
            return
        if seen[0] > 2500:
            return
        seen[0] += 1
        ctx.eq(obj.classdef.class_name, T["classes"][o.clsid]["name"], "read", "class of the object at %s" % where)
        for pid, (q, d) in props_of(o.clsid).items():
            p = o.props.get(pid)
            if p is None or d[0] == "ObjClass":
                continue
            got = obj.get(d[0])
            ctx.check(got is not None and got.pid == pid, "read", lambda: "%s.%s at %s reads %r" % (
                T["classes"][o.clsid]["name"], d[0], where, got))
            ctx.note("read_by_name")
            if p.form == aafref.STRONG:
                walk(got.value, p.child, depth + 1)
            elif p.form == aafref.SVEC:
                kids = list(got)
                ctx.eq(len(kids), len(p.items), "read", "%s.%s at %s" % (o.clsid, d[0], where))
                for a, b in zip(kids, p.items):
                    walk(a, b, depth + 1)
            elif p.form == aafref.SSET:
                by = {bytes(k): c for k, c in zip(p.keys, p.items)}
                ks = sorted(by)
                for k in rng.sample(ks, min(len(ks), 60)):
                    key = AUID(bytes_le=k) if len(k) == 16 else aaf2.mobid.MobID(bytes_le=k)
                    walk(got[key], by[k], depth + 1)
            elif p.form == aafref.DATA:
                ctx.eq(bytes(got.data), bytes(p.data), "read", "%s.%s at %s" % (o.clsid, d[0], where))
                n = len(p.data)
                ty = T["types"][d[2]]
                v = obj.getvalue(d[0])
                if ty["kind"] == P % "204":
                    ctx.eq(v, int.from_bytes(bytes(p.data), "little", signed=bool(ty["10"])), "read", d[0])
                elif ty["kind"] == P % "20b":
                    if n >= 2 and ty["name"] == "aafString":
                        ctx.eq(v, aafref.ustr(p.data), "read", d[0])
                elif ty["kind"] == P % "207" and d[2] != aafvals.BOOL:
                    k = str(int.from_bytes(bytes(p.data), "little", signed=True))
                    if k in ty["enum"]:
                        ctx.eq(v, ty["enum"][k], "read", d[0])
                elif d[2] == aafvals.AUIDT:
                    ctx.eq(str(v), aafref.auid(p.data), "read", d[0])
                elif d[2] == aafvals.RATIONAL:
                    ctx.eq((v.numerator, v.denominator), struct.unpack("<ii", bytes(p.data)), "read", d[0])
                else:
                    continue
                ctx.note("values_read_by_name")
    walk(f.header, A.objs["/"].props[2].child, 0)
    f.close()


def case(ctx, i):
    rng = ctx.rng
    model(True)
    k = i % 8
    if k == 3 and SAMPLES:
        case_other(ctx, i)
    elif k in (1, 5):
        case_lookups(ctx, i)
    else:
        w = PWorld(ctx, dict(setdata=30, setstrong=10, vec=14, addmob=8, adddef=4, weak=6, warr=6, reopen=2, copy=2),
                   maxdepth=rng.choice([2, 3, 4]), optional=rng.choice([0.2, 0.5]))
        w.run(rng.choice([30, 80, 140]))
        w.finish()
    vfs.clear()
    ctx.sample([repr(e) for e in ctx.events[:8]])
