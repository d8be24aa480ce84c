"""Dictionary lookups: ids, names and objects lead to the definition they name, also after reopening and merging."""
import uuid

import aaf2
from aaf2.auid import AUID
from vlib import vfs

ID = "C23"
KINDS = {
    # kind: (set, lookup, factory, short names of what every new file has)
    "data": ("DataDefinitions", "lookup_datadef", "DataDef"),
    "container": ("ContainerDefinitions", "lookup_containerdef", "ContainerDef"),
    "codec": ("CodecDefinitions", "lookup_codecdef", "CodecDef"),
    "parameter": ("ParameterDefinitions", "lookup_parameterdef", "ParameterDef"),
    "operation": ("OperationDefinitions", "lookup_operationdef", "OperationDef"),
    "interpolation": ("InterpolationDefinitions", "lookup_interperlationdef", "InterpolationDef"),
    "tagged": ("TaggedValueDefinitions", "lookup_taggedvaluedef", "TaggedValueDef"),
}
PLAN = {
    "quick": 240, "thorough": 5000,
    "rule": "two or three files register definitions of every kind with random ids and names, rename and replace them, use them, "
            "merge each other's dictionaries in any direction and order, save and reopen; a model of id, name and content per kind "
            "answers every lookup by id, uuid, short and full name in any case, and by object, and lookups of near misses, of "
            "names of other kinds and of unknown ids; types and classes are looked up too; distinct by (kinds, operations)",
    "require": {"lookups": 60000, "misses": 12000, "registered": 2500, "merged_defs": 1500, "merges": 300, "reopened": 300,
                "renamed": 150, "params_merged": 40, "type_lookups": 4000},
    "assumptions": ["names of a kind differ from each other other than in case and the standard prefixes", "merged definitions refer "
                    "to definitions the other dictionary has or brings along"],
}
TYPES = ["aafInt32", "aafUInt8", "aafString", "Rational", "Boolean", "AUID", "aafInt64", "ProductReleaseType", "aafIndirect"]


def cases(rng, s):
    """the name in another (ASCII) case"""
    r = rng.random()
    if r < 0.4:
        return s
    def turn(c):
        return (c.upper() if rng.random() < 0.5 else c.lower()) if c.isascii() else c
    if r < 0.6:
        return "".join(c.lower() if c.isascii() else c for c in s)
    if r < 0.8:
        return "".join(c.upper() if c.isascii() else c for c in s)
    return "".join(turn(c) for c in s)


def short(name):
    return name.replace("DataDef_", "").replace("ContainerDef_", "")


def fold(name):
    return short(name).lower()


class World(object):
    def __init__(self, ctx, n):
        self.ctx, self.rng = ctx, ctx.rng
        self.pool = [AUID(bytes_le=bytearray(self.rng.randbytes(16))) for _ in range(60)]
        self.words = []
        self.files = [File(self, k) for k in range(n)]

    def name(self):
        rng = self.rng
        r = rng.random()
        if r < 0.25 and self.words:
            return rng.choice(self.words)               # names met before, maybe of another kind
        if r < 0.35:
            w = rng.choice(["x", "A", "10", "Δt", "名前", "a b", "tab\there", "dot.ted", "%s", "{0}"]) + str(rng.randint(0, 999))
        else:
            w = "".join(rng.choice("abcdefgXYZ_ 09-") for _ in range(rng.randint(1, 14))).strip() or "w%d" % rng.randint(0, 99)
        if rng.random() < 0.3 and self.words:
            w = short(rng.choice(self.words)) + rng.choice(["2", "_", "x", " "])   # extends another name
        if rng.random() < 0.35:
            w = rng.choice(["DataDef_", "ContainerDef_", "CodecDef_", "OperationDef_"]) + w
        if not short(w).strip():
            w = "w%d" % rng.randint(0, 999)
        self.words.append(w)
        return w


class File(object):
    def __init__(self, world, k):
        self.w, self.ctx, self.rng = world, world.ctx, world.rng
        self.path = vfs.new("dict-%d.aaf" % k)
        self.f = aaf2.open(self.path, "w")
        self.model = {k: {} for k in KINDS}     # auid -> dict(name, description, ...)
        self.tag = "file %d" % k
        self.uses = 0
        self.learn()

    def learn(self):
        """what a new file has, read definition by definition"""
        for kind, (s, _, _) in KINDS.items():
            for o in self.f.dictionary[s].values():
                self.model[kind][o.auid] = self.describe(kind, o)
        d = self.model["data"]
        want = {AUID("01030202-0100-0000-060e-2b3404010101"): "DataDef_Picture", AUID("01030202-0200-0000-060e-2b3404010101"): "DataDef_Sound",
                AUID("01030201-0100-0000-060e-2b3404010101"): "DataDef_Timecode",
                AUID("6f3c8ce1-6cef-11d2-807d-006008143e6f"): "DataDef_LegacyPicture", AUID("78e1ebe1-6cef-11d2-807d-006008143e6f"): "DataDef_LegacySound"}
        for a, n in want.items():
            self.ctx.eq(d.get(a, {}).get("name"), n, "builtin", "data definition %s" % a)

    def describe(self, kind, o):
        m = dict(name=o.name, description=o.description)
        if kind == "parameter":
            m["type"] = str(o.typedef.auid)
        elif kind == "codec":
            m["class"] = str(o["FileDescriptorClass"].value.auid)
            m["kinds"] = sorted(str(d.auid) for d in o["DataDefinitions"].value)
        elif kind == "operation":
            m["kind"] = str(o.datadef.auid)
            m["inputs"] = o.number_inputs
            m["params"] = sorted(str(p.auid) for p in o.parameters.value or [])
            m["warp"] = o["IsTimeWarp"].value
            m["category"] = str(o.getvalue("OperationCategory"))
            m["degrade"] = [str(x.auid) for x in o.getvalue("DegradeTo") or []]
        return m

    def names(self, kind):
        return {fold(m["name"]) for m in self.model[kind].values() if m["name"]}

    # -- operations -----------------------------------------------------------------------------------------------------
    def free_name(self, kind, taken=()):
        for _ in range(50):
            n = self.w.name()
            if fold(n) not in self.names(kind) and fold(n) not in taken and short(n):
                return n
        return None

    def register(self, kind):
        rng, f = self.rng, self.f
        s, _, factory = KINDS[kind]
        auid = rng.choice(self.w.pool)
        replace = auid in self.model[kind]
        if replace and (self.uses or rng.random() < 0.7):
            return
        n = self.free_name(kind)
        if n is None:
            return
        old = self.model[kind].pop(auid, None)
        desc = rng.choice([None, "", "what it is", "説明"])
        ident = rng.choice([auid, str(auid), auid.uuid])
        if kind == "codec":
            cls = rng.choice(["CDCIDescriptor", "PCMDescriptor", "RGBADescriptor", "WAVEDescriptor"])
            kinds = rng.choice([["Picture"], ["Sound"], ["picture", "DataDef_Sound"], ["LegacyPicture"]])
            o = f.create.CodecDef(f.dictionary, ident, n, desc, cls, kinds)
        elif kind == "parameter":
            t = rng.choice(TYPES)
            if rng.random() < 0.3:
                t = f.metadict.lookup_typedef(t).auid
            o = f.create.ParameterDef(ident, n, desc, t)
        else:
            o = getattr(f.create, factory)(ident, n, desc)
        if kind == "operation":
            f.dictionary.register_def(o)
            o.media_kind = rng.choice(["Picture", "sound", "DataDef_Picture", rng.choice(list(self.model["data"]))])
            o["IsTimeWarp"].value = rng.random() < 0.5
            o["Bypass"].value = rng.randint(0, 5)
            o.number_inputs = rng.choice([-1, 0, 1, 2])
            o["OperationCategory"].value = "OperationCategory_Effect"
            for a in rng.sample(list(self.model["parameter"]), min(len(self.model["parameter"]), rng.choice([0, 0, 1, 2, 4]))):
                o.parameters.append(f.dictionary.lookup_parameterdef(a))
        else:
            f.dictionary.register_def(o)
        self.model[kind][auid] = self.describe(kind, o)
        self.ctx.eq((o.name, o.description), (n, desc), "registered", "name and description given")
        self.ctx.note("registered")
        self.ctx.log(self.tag, "register", kind, str(auid), n, "replacing %s" % old["name"] if old else "")
        self.find(kind, auid)

    def grow(self):
        """an operation learns more parameters"""
        rng = self.rng
        ops = [a for a in self.model["operation"] if a in self.w.pool]
        if not ops:
            return
        common = [a for a in ops if sum(a in x.model["operation"] for x in self.w.files) > 1]
        a = rng.choice(common or ops)
        if not self.model["parameter"]:
            return
        p = rng.choice(list(self.model["parameter"]))
        m = self.model["operation"][a]
        if str(p) in m["params"]:
            return
        self.f.dictionary.lookup_operationdef(a).parameters.append(self.f.dictionary.lookup_parameterdef(p))
        m["params"] = sorted(m["params"] + [str(p)])
        self.ctx.note("grown")
        self.ctx.log(self.tag, "grow", str(a), str(p))
        self.find("operation", a)

    def rename(self, kind):
        rng = self.rng
        own = [a for a in self.model[kind] if a in self.w.pool]
        if not own:
            return
        a = rng.choice(own)
        n = self.free_name(kind)
        if n is None:
            return
        o = self.f.dictionary[KINDS[kind][0]].get(a)
        was = o.name
        o.name = n
        self.model[kind][a]["name"] = n
        self.ctx.note("renamed")
        self.ctx.log(self.tag, "rename", kind, was, n)
        self.find(kind, a)
        if was and fold(was) not in self.names(kind):
            self.missing(kind, was)

    def merge(self, other):
        rng, ctx = self.rng, self.ctx
        # the names must stay apart: rename the other's definitions that would collide
        for kind in KINDS:
            for a, m in other.model[kind].items():
                if a not in self.model[kind] and m["name"] and fold(m["name"]) in self.names(kind):
                    return
        before = {k: {a: self.dump(o) for a, o in self.f.dictionary[s[0]].items()} for k, s in KINDS.items()}
        if rng.random() < 0.05:
            for bad in (None, {}, other.f):
                ctx.raises((Exception,), "merge-refused", self.f.dictionary.update, bad)
        self.f.dictionary.update(other.f.dictionary)
        ctx.note("merges")
        ctx.log(self.tag, "merge", other.tag)
        for kind, (s, _, _) in KINDS.items():
            for a, m in other.model[kind].items():
                if a not in self.model[kind]:
                    ctx.note("merged_defs")
                    self.model[kind][a] = dict(m)
                    if rng.random() < 0.3:
                        self.find(kind, a)
                elif kind == "operation":
                    mine = self.model[kind][a]
                    both = sorted(set(mine["params"]) | set(m["params"]))
                    if both != mine["params"]:
                        ctx.note("params_merged")
                        before[kind].pop(a)
                    mine["params"] = both
            for a, d in before[kind].items():
                now = self.dump(self.f.dictionary[s].get(a))
                ctx.check(now == d, "merge-altered", lambda: "%s %s was %s, now %s" % (kind, a, d, now))
        for kind in KINDS:
            self.whole(kind)

    def dump(self, o):
        out = []
        for p in o.properties():
            v = p.value
            if hasattr(v, "auid"):
                v = str(v.auid)
            elif not isinstance(v, (str, bytes, int, type(None))) and hasattr(v, "__iter__") and not isinstance(v, AUID):
                v = sorted(str(getattr(x, "auid", x)) for x in v)
            out.append((p.name, str(v)))
        return sorted(out)

    def use(self):
        """objects refer to definitions by any form of their name"""
        rng, f = self.rng, self.f
        if rng.random() < 0.5:
            a = rng.choice(list(self.model["data"]))
            form, what = self.form("data", a)
            c = f.create.Filler(form, 10) if rng.random() < 0.5 else f.create.Sequence(form)
            self.ctx.eq(c["DataDefinition"].value.auid, a, "use", "media kind by %s" % what)
            n = self.model["data"][a]["name"]
            self.ctx.eq(c.media_kind, short(n), "use", "media kind read back")
        elif self.model["parameter"]:
            a = rng.choice(list(self.model["parameter"]))
            form, what = self.form("parameter", a)
            p = f.create.ConstantValue(form)
            self.ctx.eq((p.auid, p.parameterdef.auid, p.name), (a, a, self.model["parameter"][a]["name"]), "use", "parameter by %s" % what)
            self.ctx.eq(str(p.typedef.auid), self.model["parameter"][a]["type"], "use", "type of the parameter")
        elif self.model["operation"]:
            a = rng.choice(list(self.model["operation"]))
            form, what = self.form("operation", a)
            g = f.create.OperationGroup(form, 5)
            self.ctx.eq(g.operation.auid, a, "use", "operation by %s" % what)

    # -- lookups ----------------------------------------------------------------------------------------------------------
    def form(self, kind, a):
        rng = self.rng
        n = self.model[kind][a]["name"]
        r = rng.random()
        if r < 0.2 or not n:
            return a, "id"
        if r < 0.3:
            return a.uuid, "uuid"
        if r < 0.4:
            return self.f.dictionary[KINDS[kind][0]].get(a), "object"
        if r < 0.6:
            return cases(rng, short(n)), "short name"
        if r < 0.7:
            return rng.choice(["DataDef_", "ContainerDef_"]) + cases(rng, short(n)), "prefixed name"
        if n.startswith(("DataDef_", "ContainerDef_")):
            p = n.index("_") + 1
            return n[:p] + cases(rng, n[p:]), "full name"
        return cases(rng, n) if short(cases(rng, n)) and short(n) == n else n, "full name"

    def find(self, kind, a):
        s, look, factory = KINDS[kind]
        ctx = self.ctx
        for _ in range(4):
            form, what = self.form(kind, a)
            ctx.note("lookups")
            try:
                o = getattr(self.f.dictionary, look)(form)
            except Exception as e:
                ctx.check(False, "lookup", "%s: %s %r by %s %r: %s: %s" % (self.tag, kind, self.model[kind][a]["name"], what, form, type(e).__name__, e))
            ctx.check(o is not None and o.auid == a, "lookup", lambda: "%s: %s %s %r by %s %r gives %r" % (
                self.tag, kind, a, self.model[kind][a]["name"], what, form, o))
            if what == "object":
                ctx.check(o is form, "lookup", "another object")
        m = self.describe(kind, o)
        ctx.check(m == self.model[kind][a], "definition", lambda: "%s: %s %s is %s, expected %s" % (self.tag, kind, a, m, self.model[kind][a]))
        n = m["name"]
        ctx.eq((o.short_name, o.uuid), (short(n) if n else None, uuid.UUID(str(a))), "definition", "short name and uuid")

    def missing(self, kind, name):
        look = getattr(self.f.dictionary, KINDS[kind][1])
        self.ctx.note("misses")
        if isinstance(name, (AUID, uuid.UUID)):
            try:
                o = look(name)
            except Exception:
                return
            self.ctx.check(o is None, "miss", lambda: "%s: unknown %s id %s gives %r" % (self.tag, kind, name, o))
            return
        try:
            o = look(name)
        except Exception:
            return
        self.ctx.check(o is None, "miss", lambda: "%s: unknown %s name %r gives %r" % (self.tag, kind, name, o))

    def whole(self, kind):
        s = KINDS[kind][0]
        got = sorted(str(a) for a, _ in self.f.dictionary[s].items())
        self.ctx.eq(got, sorted(str(a) for a in self.model[kind]), "set", "%s: ids of the %s definitions" % (self.tag, kind))

    def ask(self, all_=False):
        rng = self.rng
        for kind in KINDS:
            if not all_ and rng.random() < 0.6:
                continue
            self.whole(kind)
            ids = list(self.model[kind])
            own = [a for a in ids if a in self.w.pool]
            for a in (ids if all_ and len(ids) < 40 else own + rng.sample(ids, min(len(ids), 6))):
                self.find(kind, a)
            names = self.names(kind)
            probe = [AUID(bytes_le=bytearray(rng.randbytes(16))), uuid.UUID(bytes=rng.randbytes(16))]
            probe += [a for a in rng.sample(self.w.pool, 3) if a not in self.model[kind]]
            if own:
                n = short(self.model[kind][own[0]]["name"] or "zz")
                probe += [n + "x", n[:-1], " " + n, n + " ", "x" + n]
            for k in KINDS:
                other = [m["name"] for m in self.model[k].values() if m["name"]]
                if k != kind and other:
                    probe.append(rng.choice(other))
            for p in probe:
                if isinstance(p, str) and (not short(p) or fold(p) in names):
                    continue
                self.missing(kind, p)

    def types(self):
        rng, md, ctx = self.rng, self.f.metadict, self.ctx
        for _ in range(12):
            n = rng.choice(list(md.typedefs_by_name))
            t = md.lookup_typedef(n)
            ctx.note("type_lookups")
            ctx.eq(t.type_name, n, "type", "type looked up by name")
            for form in (t.auid, str(t.auid), t):
                ctx.check(md.lookup_typedef(form) is t, "type", lambda: "type %s by %r" % (n, form))
            ctx.check(self.f.dictionary.lookup_typedef(n) is t, "type", "by the dictionary")
            c = rng.choice(list(md["ClassDefinitions"].values()))
            ctx.note("type_lookups")
            for form in (c.auid, str(c.auid), c):
                ctx.check(md.lookup_classdef(form) is c, "class", lambda: "class %s by %r" % (c.class_name, form))
            if len([x for x in md["ClassDefinitions"].values() if x.class_name == c.class_name]) == 1:
                ctx.check(md.lookup_classdef(c.class_name) is c, "class", lambda: "class %s by name" % c.class_name)
        for bad in ("no such type", "", "AAFINT32x", AUID(bytes_le=bytearray(rng.randbytes(16)))):
            ctx.eq(md.lookup_typedef(bad), None, "type", "unknown type %r" % (bad,))
            ctx.eq(md.lookup_classdef(bad), None, "class", "unknown class %r" % (bad,))

    def reopen(self, mode):
        self.f.close()
        self.f = aaf2.open(self.path, mode)
        self.ctx.note("reopened")
        self.ctx.log(self.tag, "reopen", mode)
        self.uses = 0


def case(ctx, i):
    rng = ctx.rng
    w = World(ctx, rng.choice([1, 2, 2, 3]))
    weights = [rng.random() + (k in ("operation", "parameter")) for k in KINDS]
    for step in range(rng.randint(15, 60)):
        F = rng.choice(w.files)
        if F.f.mode == "rb":
            F.reopen("r+") if rng.random() < 0.5 else F.ask()
            continue
        r = rng.random()
        if r < 0.5:
            F.register(rng.choices(list(KINDS), weights)[0])
        elif r < 0.54:
            F.grow()
        elif r < 0.6:
            F.rename(rng.choice(list(KINDS)))
        elif r < 0.66:
            F.ask()
        elif r < 0.7:
            F.types()
        elif r < 0.78:
            F.use()
        elif r < 0.9 and len(w.files) > 1:
            F.merge(rng.choice([x for x in w.files if x is not F]))
        elif r < 0.93:
            F.f.save()
        else:
            F.reopen(rng.choice(["r", "r+", "r+"]))
    for F in w.files:
        F.ask(True)
        F.types()
        F.reopen("r")
        F.ask(True)
        F.types()
        F.f.close()
    ctx.distinct((len(w.files), [sorted((k, len(v)) for k, v in F.model.items()) for F in w.files]))
    ctx.sample(["%s=%d" % kv for kv in sorted(ctx.counters.items())])
    vfs.clear()
