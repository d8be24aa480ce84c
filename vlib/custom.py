"""Random extensions of the data model: types, classes and properties, registered through the public API."""
from aaf2.auid import AUID

from . import aafvals
from .aafvals import uid

PLAIN = ["01010100-0000-0000-060e-2b3401040101", "01010200-0000-0000-060e-2b3401040101", "01010300-0000-0000-060e-2b3401040101",
         "01010400-0000-0000-060e-2b3401040101", "01010500-0000-0000-060e-2b3401040101", "01010600-0000-0000-060e-2b3401040101",
         "01010700-0000-0000-060e-2b3401040101", "01010800-0000-0000-060e-2b3401040101"]
INTINFO = {u: (1 << (i % 4), i >= 4) for i, u in enumerate(PLAIN)}
CHAR8 = "01100300-0000-0000-060e-2b3401040101"


class Custom(object):
    """types whose description is chosen here, independent of the library's own model"""

    def __init__(self, rng, tag=""):
        self.rng = rng
        self.types = {}         # category -> {name: args}
        self.made = []          # (name, auid string, fixed size or None, hashable)
        self.tag = tag
        self.n = 0

    def auid(self):
        return str(aafvals.rauid(self.rng))

    def name(self, what):
        self.n += 1
        return "%s%s%d%s" % (what, self.tag, self.n, self.rng.choice(["", " x", "_\u00e9", "-"]))

    def fixed(self):
        """types of constant size: (auid, hashable)"""
        out = [(u, True) for u in PLAIN] + [(aafvals.BOOL, True), (aafvals.AUIDT, True), (aafvals.RATIONAL, True),
                                            (aafvals.MOBID, False), (aafvals.STAMP, True), (aafvals.DATE, True)]
        return out + [(a, h) for _, a, s, h in self.made if s]

    def add(self, cat, name, args, size, hashable):
        self.types.setdefault(cat, {})[name] = args
        self.made.append((name, args[0], size, hashable))
        return args[0]

    def grow(self, k):
        for _ in range(k):
            self.one()
        return self

    def one(self, kind=None):
        rng = self.rng
        kind = kind or rng.choice(["enums", "extenums", "records", "fixed_arrays", "var_arrays", "sets", "renames",
                                   "strings", "ints", "enums", "records", "var_arrays"])
        a = self.auid()
        if kind == "ints":
            return self.add(kind, self.name("Int"), (a, rng.choice([1, 2, 4, 8]), rng.random() < 0.5), True, True)
        if kind == "enums":
            u = rng.choice(PLAIN)
            size, signed = INTINFO[u]
            els = {}
            for i in range(rng.choice([1, 2, 5, 30])):
                els[min(aafvals.rint(rng, size, signed), (1 << 63) - 1)] = rng.choice(["v%d", "Name %d", "\u4e2d%d", "%d"]) % i
            return self.add(kind, self.name("Enum"), (a, u, els), True, True)
        if kind == "extenums":
            els = {self.auid(): rng.choice(["Usage_%d", "k %d", "\u00fc%d"]) % i for i in range(rng.choice([1, 3, 12]))}
            return self.add(kind, self.name("Ext"), (a, els), True, True)
        if kind == "records":
            fs = [(rng.choice(["f%d", "Field %d", "\u00e9%d"]) % i, rng.choice(self.fixed())[0])
                  for i in range(rng.choice([1, 2, 4, 9]))]
            return self.add(kind, self.name("Rec"), (a, tuple(fs)), True, False)
        if kind == "fixed_arrays":
            return self.add(kind, self.name("Fix"), (a, rng.choice(self.fixed())[0], rng.choice([1, 2, 3, 16])), True, False)
        if kind == "var_arrays":
            e = rng.choice(self.fixed())[0] if rng.random() < 0.9 else aafvals.CHARACTER
            return self.add(kind, self.name("Arr"), (a, e), False, False)
        if kind == "sets":
            e = rng.choice([x for x, h in self.fixed() if h])
            return self.add(kind, self.name("Set"), (a, e), False, False)
        if kind == "renames":
            c = [(x, h, True) for x, h in self.fixed()] + [(x, h, s) for _, x, s, h in self.made]
            e, h, s = rng.choice(c)
            return self.add(kind, self.name("Ren"), (a, e), s, h)
        return self.add("strings", self.name("Str"), (a, rng.choice([aafvals.CHARACTER, aafvals.CHARACTER, CHAR8])), False, True)

    def apply(self, f):
        f.metadict.register_typedef_model(self.types)


class Bad(object):
    pass


def bad(rng, td, depth=0):
    """a value the type cannot represent"""
    n = type(td).__name__
    key = uid(td.auid)
    if n == "TypeDefInt":
        lo, hi = (-(1 << (8 * td.size - 1)), (1 << (8 * td.size - 1)) - 1) if td.signed else (0, (1 << (8 * td.size)) - 1)
        return rng.choice([lo - 1, hi + 1, hi * 2 + 2, -hi - 5, 1 << 64, "5", 1.5, b"\1", [], Bad(), (1,)])
    if n == "TypeDefEnum":
        if key == aafvals.BOOL:
            raise KeyError("bool takes anything")
        els = td.elements
        k = max(els) + 1
        return rng.choice(["no such name", k, min(els) - 1, Bad(), "", els[max(els)] + " "])
    if n == "TypeDefExtEnum":
        return rng.choice(["no such name", "", aafvals.rauid(rng), aafvals.rauid(rng).uuid, 5])
    if n == "TypeDefString":
        eight = uid(td.element_typedef.auid) == CHAR8
        return rng.choice(["a\0b", "\0", "tail\0", 5, b"bytes", ["a"], "\ud800", "x\udfffy", Bad()] +
                          (["\u4e2d", "\u20ac"] if eight else []))
    if n == "TypeDefRename":
        return bad(rng, td.renamed_typedef, depth)
    if n == "TypeDefIndirect":
        return rng.choice([1 << 31, -(1 << 31) - 1, 1.5, Bad(), ["a"], "a\0b", "\ud800"])
    if n == "TypeDefRecord":
        if key == aafvals.MOBID:
            return rng.choice(["x", 5, aafvals.rauid(rng), b"x" * 32, {}, Bad()])
        if key == aafvals.AUIDT:
            return rng.choice(["x", 5, aafvals.rmobid(rng), b"x" * 16, {}, Bad()])
        if key == aafvals.RATIONAL:
            from aaf2.rational import AAFRational
            return rng.choice([AAFRational(1 << 31, 1), AAFRational(-(1 << 31) - 1, 1), AAFRational(1, 1 << 31), "a/b", "",
                               Bad(), 1 << 31])
        if key == aafvals.DATE:
            return rng.choice(["2024-01-01", 5, {"year": 1, "month": 1}, {"year": 40000, "month": 1, "day": 1}, Bad(),
                               aafvals.rtime(rng)])
        if key == aafvals.TIME:
            return rng.choice(["10:00", 5, {"hour": 1}, {"hour": 256, "minute": 1, "second": 1, "fraction": 0}, Bad(),
                               aafvals.rdate(rng)])
        if key == aafvals.STAMP:
            return rng.choice(["now", 5, {"date": aafvals.rdate(rng)}, aafvals.rdate(rng), aafvals.rtime(rng), Bad()])
        v, e, b = aafvals.gen(rng, td, depth)
        k = rng.choice(sorted(v))
        if rng.random() < 0.4:
            del v[k]
            return v
        ft = dict((nm, t) for (nm, _), t in zip(td.fields, list(td.member_types)))
        v[k] = bad(rng, ft[k], depth + 1)
        return v
    if n == "TypeDefFixedArray":
        parts = [aafvals.gen(rng, td.element_typedef, depth + 1)[0] for _ in range(td.size)]
        if rng.random() < 0.4:
            return parts + [aafvals.gen(rng, td.element_typedef, depth + 1)[0]]
        parts[rng.randrange(len(parts))] = bad(rng, td.element_typedef, depth + 1)
        return parts
    if n in ("TypeDefVarArray", "TypeDefSet"):
        if rng.random() < 0.2:
            return rng.choice([5, Bad(), 1.5])
        if uid(td.element_typedef.auid) == aafvals.CHARACTER:
            parts = ["ok", "fine"]
            b = rng.choice(["a\0b", 5, b"x", "\ud800"])
        else:
            parts = [aafvals.gen(rng, td.element_typedef, depth + 1)[0] for _ in range(rng.choice([0, 1, 3]))]
            b = bad(rng, td.element_typedef, depth + 1)
        parts.insert(rng.randint(0, len(parts)), b)
        return parts
    raise KeyError(n)


def scramble(rng, v):
    """change a mutable value in place; True if something could be changed"""
    if isinstance(v, list):
        if v and rng.random() < 0.5:
            if any([scramble(rng, x) for x in v]):
                return True
        v.append(v[0] if v else 1)
        v.reverse()
        return True
    if isinstance(v, dict):
        for k in list(v):
            if not scramble(rng, v[k]):
                v[k] = None
        v["extra"] = 1
        return True
    if isinstance(v, set):
        v.clear()
        v.add(1)
        return True
    if type(v).__name__ == "MobID":
        v.Data1 = 0x12345678
        v.instanceHigh = 0x7f
        return True
    return False


HEADER = "0d010301-0102-0100-060e-2b3401010102"        # Root.Header
CONTENT = "06010104-0201-0000-060e-2b3401010102"       # Header.Content
MOBREF = "05010600-0000-0000-060e-2b3401040101"        # MobWeakReference


def weak_model(f, rng):
    """classes, keyed sets and weak reference types with targets of their own; {reference path: (owner, set)}"""
    auid = lambda: str(aafvals.rauid(rng))
    md = f.metadict
    out = {}
    refs = [MOBREF]
    for k in range(rng.choice([1, 2, 3])):
        cls, strong, sset, weak, prop = auid(), auid(), auid(), auid(), auid()
        name = "XDef%d" % k
        md.register_classdef(name, cls, "DefinitionObject", True, {})
        owner = rng.choice(["Header", "Header", "ContentStorage"])
        path = (HEADER, prop) if owner == "Header" else (HEADER, CONTENT, prop)
        md.register_typedef_model({
            "strongrefs": {name + "Strong": (strong, cls)},
            "sets": {name + "Set": (sset, strong)},
            "weakrefs": {name + "Weak": (weak, cls, path)}})
        pd = md.lookup_classdef(owner).register_propertydef(name + "s", prop, None, AUID(sset), True)
        pids = [2, pd.pid] if owner == "Header" else [2, 0x3b03, pd.pid]
        if owner == "ContentStorage":
            pids[1] = [p.pid for p in md.lookup_classdef("Header").propertydefs if str(p.auid) == CONTENT][0]
        out[tuple(pids)] = (owner, name + "s", name)
        refs.append(weak)
    model = {"var_arrays": {}, "sets": {}}
    forms = []
    for k, weak in enumerate(refs):
        va, st = auid(), auid()
        model["var_arrays"]["XWeakVector%d" % k] = (va, weak)
        model["sets"]["XWeakSet%d" % k] = (st, weak)
        forms += [weak, va, st]
    md.register_typedef_model(model)
    rng.shuffle(forms)
    for k, t in enumerate(forms):
        c = md.lookup_classdef(rng.choice(["Component", "Mob", "MobSlot", "EssenceDescriptor", "InterchangeObject"]))
        c.register_propertydef("XRef%d" % k, auid(), None, AUID(t), True)
    return out


OWNED = ["SourceMob", "MasterMob", "CompositionMob", "Mob", "EssenceData", "Parameter", "ConstantValue", "VaryingValue",
         "Component", "Filler", "Segment", "Locator", "ControlPoint", "TaggedValue", "SourceReference", "KLVData",
         "EssenceDescriptor", "ParameterDefinition"]
KEYED = ("Mob", "EssenceData", "Parameter", "DefinitionObject")


def strong_model(f, rng, tag=""):
    """properties that own objects of classes the built-in model has no such properties for"""
    auid = lambda: str(aafvals.rauid(rng))
    md = f.metadict
    for k in range(rng.choice([1, 2, 4])):
        cls = rng.choice(OWNED + OWNED[:8])
        cd = md.lookup_classdef(cls)
        if rng.random() < 0.2 and "Parameter" not in [c.class_name for c in cd.relatives()]:
            sub = "XSub%s%d" % (tag, k)
            md.register_classdef(sub, auid(), cls, True, {})
            cd = md.lookup_classdef(sub)
        strong, vec, sset = auid(), auid(), auid()
        n = "XOwn%s%d" % (tag, k)
        md.register_typedef_model({"strongrefs": {n + "Ref": (strong, str(cd.auid))},
                                   "var_arrays": {n + "Vector": (vec, strong)},
                                   "sets": {n + "Set": (sset, strong)}})
        forms = [strong, vec]
        chain = [c.class_name for c in cd.relatives()]
        if any(c in chain for c in KEYED):
            forms += [sset, sset, sset]
        for j in range(rng.choice([1, 2])):
            c = md.lookup_classdef(rng.choice(["Component", "Mob", "MobSlot", "EssenceDescriptor", "ContentStorage"]))
            c.register_propertydef("%s_%d" % (n, j), auid(), None, AUID(rng.choice(forms)), True)


def owner_model(f, rng):
    """both, or one, or none"""
    r = rng.random()
    if r < 0.2:
        strong_model(f, rng)
    elif r < 0.3:
        return weak_model(f, rng)
    elif r < 0.4:
        strong_model(f, rng)
        return weak_model(f, rng)
