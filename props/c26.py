"""Constructors, factory methods and named attributes against the properties they stand for."""
import datetime
import struct

import aaf2
from aaf2.auid import AUID
from aaf2.mobid import MobID
from aaf2.rational import AAFRational
from vlib import aafvals, vfs
from vlib.harness import short

ID = "C26"
PLAN = {
    "quick": 200, "thorough": 6000,
    "rule": "random objects of every class with a constructor or attributes of its own, built through the factory with "
            "random arguments (by position and by name) and through the factory methods of mobs, then changed through "
            "attributes and through the properties in turn; every stored property is compared with a table of what "
            "each argument and attribute stands for, at once, after saving and after reopening; distinct by (class, "
            "arguments given) and (class, attribute)",
    "require": {"constructed": 1800, "properties_compared": 90000, "attribute_sets": 700, "property_sets": 250,
                "factory_calls": 1200, "compared_reopened": 20000},
    "assumptions": ["arguments of the types the AAF specification gives the properties"],
}

SEGMENTS = ["Filler", "Sequence", "NestedScope", "EssenceGroup", "EdgeCode", "Pulldown", "ScopeReference", "Selector",
            "Transition", "SourceClip", "Timecode", "OperationGroup", "CommentMarker", "DescriptiveMarker"]
MOBS = ["CompositionMob", "MasterMob", "SourceMob"]
SLOTS = ["TimelineMobSlot", "EventMobSlot", "StaticMobSlot"]
USAGES = ["Usage_TopLevel", "Usage_LowerLevel", "Usage_SubClip", "Usage_AdjustedClip", "Usage_Template", None]
DESCS = ["ImportDescriptor", "TapeDescriptor", "CDCIDescriptor", "PCMDescriptor", "RGBADescriptor", "WAVEDescriptor",
         "DataEssenceDescriptor", "MultipleDescriptor", "SoundDescriptor", "AIFCDescriptor"]
# what the specification requires of each class besides what the constructors set
FILL = {"aafPositionType": lambda w: 7, "aafLengthType": lambda w: 7, "FilmType": lambda w: "Ft35MM", "EdgeType": lambda w:
        "EtKeycode", "PulldownKindType": lambda w: "PALPD", "PulldownDirectionType": lambda w: "FilmToTapeSpeed",
        "aafPhaseFrameType": lambda w: 1, "aafUInt32": lambda w: 3, "aafUInt16": lambda w: 3, "LayoutType": lambda w:
        "FullFrame", "aafInt32Array": lambda w: [1, 2], "Rational": lambda w: AAFRational(1, 2), "aafDataValue": lambda w:
        b"summary", "aafRGBALayout": lambda w: [{"Code": "CompRed", "Size": 8}, {"Code": "CompNull", "Size": 0}],
        "kAAFTypeID_SegmentStrongReference": lambda w: w.f.create.Filler("picture", 3),
        "kAAFTypeID_SegmentStrongReferenceVector": lambda w: [w.f.create.Filler("picture", 3)],
        "kAAFTypeID_SourceReferenceStrongReferenceVector": lambda w: [w.f.create.SourceClip()],
        "kAAFTypeID_FileDescriptorStrongReferenceVector": lambda w: []}
DEFS = {"DataDef": "DataDefinitions", "OperationDef": "OperationDefinitions", "ParameterDef": "ParameterDefinitions",
        "ContainerDef": "ContainerDefinitions", "InterpolationDef": "InterpolationDefinitions",
        "TaggedValueDef": "TaggedValueDefinitions", "CodecDef": "CodecDefinitions"}
# class -> attribute -> (property, kind of value); inherited ones are listed with each class
COMP = {"length": ("Length", "i64"), "datadef": ("DataDefinition", "datadef"), "media_kind": ("DataDefinition", "kind")}
SREF = dict(COMP, mob_id=("SourceID", "mobid"), slot_id=("SourceMobSlotID", "u32"))
DEFA = {"name": ("Name", "str"), "description": ("Description", "str")}
MOBA = {"name": ("Name", "str"), "usage": ("UsageCode", "usage")}
ATTRS = {c: dict(COMP) for c in SEGMENTS}
ATTRS["Transition"]["cutpoint"] = ("CutPoint", "i64")
ATTRS["SourceClip"] = dict(SREF, start=("StartTime", "i64"))
ATTRS["Timecode"].update(start=("Start", "i64"), fps=("FPS", "u16"), drop=("Drop", "bool"))
ATTRS["OperationGroup"].update(operation=("Operation", "opdef"))
ATTRS.update({c: dict(MOBA) for c in MOBS})
ATTRS.update({c: {"name": ("SlotName", "str"), "slot_id": ("SlotID", "slotid")} for c in SLOTS})
ATTRS["TimelineMobSlot"].update(origin=("Origin", "i64"), edit_rate=("EditRate", "rate"))
ATTRS["EventMobSlot"].update(edit_rate=("EditRate", "rate"))
ATTRS.update({c: dict(DEFA) for c in DEFS})
ATTRS["OperationDef"].update(datadef=("DataDefinition", "datadef"), media_kind=("DataDefinition", "kind"),
                             number_inputs=("NumberInputs", "i32"))
ATTRS["ParameterDef"].update(typedef=("Type", "typedef"))
for c in ("CDCIDescriptor", "PCMDescriptor", "RGBADescriptor", "WAVEDescriptor", "DataEssenceDescriptor",
          "MultipleDescriptor", "SoundDescriptor", "AIFCDescriptor"):
    ATTRS[c] = {"length": ("Length", "i64")}


class Ref(object):
    """the target of a weak reference, by id"""

    def __init__(self, o):
        self.id = str(o.auid)

    def __repr__(self):
        return "<ref %s>" % self.id


def key(v):
    """a comparable form of a value or of what a property returns"""
    if isinstance(v, Ref):
        return ("ref", v.id)
    if isinstance(v, aaf2.core.AAFObject):
        return ("ref", str(v.auid)) if hasattr(v, "auid") and not isinstance(v, aaf2.misc.Parameter) else ("obj", id(v))
    if isinstance(v, MobID):
        return ("mobid", bytes(v.bytes_le))
    if isinstance(v, AUID):
        return ("auid", bytes(v.bytes_le))
    if isinstance(v, (AAFRational,)):
        return ("rat", v.numerator, v.denominator)
    if isinstance(v, bool):
        return ("bool", v)
    return (type(v).__name__ if not isinstance(v, int) else "int", v)


class Item(object):
    def __init__(self, cls, o, find, props):
        self.cls, self.o, self.find, self.props = cls, o, find, props


class World(object):
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.path = vfs.new("helpers-%d.aaf" % ctx.index)
        self.f = aaf2.open(self.path, "w", extensions=self.rng.random() < 0.5)
        self.items = []
        self.kinds = {}
        for a, d in self.f.dictionary["DataDefinitions"].items():
            n = d["Name"].value.replace("DataDef_", "")
            self.kinds[n] = str(a)
        self.opdefs = []
        self.pdefs = []
        self.made = set()
        for _ in range(3):
            self.opdef()
        self.pdef()

    # --- values ------------------------------------------------------------------
    def kind(self):
        n = self.rng.choice(sorted(self.kinds))
        shown = self.rng.choice([n, n.lower(), n.upper(), "DataDef_" + n])
        return n, shown

    def datadef(self, n):
        return self.f.dictionary["DataDefinitions"].get(AUID(self.kinds[n]))

    def opdef(self):
        rng, f = self.rng, self.f
        n, shown = self.kind()
        d = f.create.OperationDef(aafvals.rauid(rng), "op%d" % len(self.opdefs), "")
        d.media_kind = shown
        d["IsTimeWarp"].value = False
        d["Bypass"].value = 0
        d["NumberInputs"].value = 1
        d["OperationCategory"].value = "OperationCategory_Effect"
        f.dictionary.register_def(d)
        self.opdefs.append((d["Identification"].value, n))
        return d

    def pdef(self):
        t = self.rng.choice(["aafInt32", "Rational"])
        d = self.f.create.ParameterDef(aafvals.rauid(self.rng), "p%d" % len(self.pdefs), "", self.f.metadict.lookup_typedef(t))
        self.f.dictionary.register_def(d)
        self.pdefs.append((d["Identification"].value, t))

    def text(self):
        rng = self.rng
        self.ntext = getattr(self, "ntext", 0) + 1
        return rng.choice(["", "x", "name %d" % self.ntext, "\u00e9\u4e2d %d" % self.ntext, "a b\tc", "DataDef_x%d" % self.ntext])

    def rate(self):
        """(what to pass, numerator, denominator)"""
        rng = self.rng
        n, d = rng.choice([(25, 1), (24, 1), (30000, 1001), (24000, 1001), (48000, 1), (60, 1), (1, 1), (50, 1), (44100, 1)])
        r = rng.random()
        if r < 0.3:
            return "%d/%d" % (n, d), n, d
        if r < 0.6 and d == 1:
            return n, n, d
        return AAFRational(n, d), n, d

    def value(self, kind):
        """(what to pass to the attribute, what the attribute then shows, what the property then holds)"""
        rng = self.rng
        if kind in ("i64", "i32", "u32", "u16", "slotid"):
            size, signed = {"i64": (8, True), "i32": (4, True), "u32": (4, False), "u16": (2, False), "slotid": (4, False)}[kind]
            v = aafvals.rint(rng, size, signed)
            if kind == "slotid":
                v = rng.randint(1000, 2000000)
            return v, v, v
        if kind == "bool":
            v = rng.random() < 0.5
            return v, v, v
        if kind == "str":
            v = self.text()
            return v, v, v
        if kind == "mobid":
            v = aafvals.rmobid(rng)
            c = MobID(bytes_le=bytes(v.bytes_le))
            return v, c, c
        if kind == "rate":
            v, n, d = self.rate()
            return v, AAFRational(n, d), AAFRational(n, d)
        if kind == "usage":
            v = rng.choice(USAGES)
            return v, v, v
        if kind == "kind":
            n, shown = self.kind()
            return shown, n, Ref(self.datadef(n))
        if kind == "datadef":
            d = self.datadef(self.kind()[0])
            return d, Ref(d), Ref(d)
        if kind == "opdef":
            a, _ = rng.choice(self.opdefs)
            d = self.f.dictionary["OperationDefinitions"].get(a)
            return d, Ref(d), Ref(d)
        if kind == "typedef":
            t = self.f.metadict.lookup_typedef(rng.choice(["aafInt32", "Rational", "aafString", "AUID"]))
            return t, Ref(t), Ref(t)
        raise KeyError(kind)

    # --- construction ---------------------------------------------------------------
    def call(self, cls, order, values, required=0):
        """f.create.<cls> with some of the arguments, by position or by name"""
        rng = self.rng
        given = {k: v for k, v in values.items() if k in order[:required] or rng.random() < 0.6}
        args, kw = [], {}
        pos = rng.randint(0, len(order))
        for i, k in enumerate(order):
            if i < pos and len(args) == i:
                if k in given:
                    args.append(given[k])
                else:
                    args.append(None)
            elif k in given:
                kw[k] = given[k]
        self.ctx.distinct((cls, tuple(sorted(given)), pos))
        self.ctx.log("create", cls, sorted(given), pos)
        self.ctx.note("constructed")
        if "name" in kw or rng.random() < 0.7:
            make = getattr(self.f.create, cls)
            if rng.random() < 0.3:
                # what is created to be an argument of the call
                self.f.create.from_name(rng.choice(["Filler", "MasterMob", "EventMobSlot"]))
            elif rng.random() < 0.3:
                other = rng.choice(["Filler", "MasterMob", "EventMobSlot"])
                x = getattr(self.f.create, other)()
                self.ctx.check(type(x).__name__ == other, "construct", lambda: "creating %s gives %s" % (other, type(x)))
            o = make(*args, **kw)
        else:
            o = self.f.create.from_name(cls, *args, **kw)
        self.ctx.check(type(o).__name__ == cls, "construct", lambda: "creating %s gives %s" % (cls, type(o)))
        return o, given

    def component(self, cls):
        rng = self.rng
        n, shown = self.kind()
        length = rng.choice([0, 1, 100, aafvals.rint(rng, 8, True)])
        P = {}
        if cls in ("CommentMarker", "DescriptiveMarker"):
            o, g = self.call(cls, [], {})
            P["DataDefinition"] = Ref(self.datadef("DescriptiveMetadata"))
            P["Length"] = 0
        elif cls == "SourceClip":
            start, slot, mid = aafvals.rint(rng, 8, True), aafvals.rint(rng, 4, False), aafvals.rmobid(rng)
            o, g = self.call(cls, ["start", "length", "mob_id", "slot_id", "media_kind"],
                             dict(start=start, length=length, mob_id=mid, slot_id=slot, media_kind=shown))
            P["StartTime"] = g.get("start", 0)
            P["SourceMobSlotID"] = g.get("slot_id", 0)
            P["SourceID"] = MobID(bytes_le=bytes(g["mob_id"].bytes_le)) if "mob_id" in g else MobID(bytes_le=b"\0" * 32)
            P["Length"] = g.get("length", 0)
            P["DataDefinition"] = Ref(self.datadef(n if "media_kind" in g else "Picture"))
        elif cls == "Timecode":
            fps = rng.choice([24, 25, 30, 60, 120])
            drop = rng.random() < 0.5
            args = rng.choice([{}, dict(fps=fps), dict(fps=fps, drop=drop), dict(drop=drop), dict(length=length),
                               dict(fps=fps, length=length), dict(fps=fps, drop=drop, length=length)])
            self.ctx.note("constructed")
            self.ctx.distinct((cls, tuple(sorted(args))))
            self.ctx.log("create", cls, sorted(args))
            o = self.f.create.Timecode(**args)
            P.update(Start=0, FPS=args.get("fps", 25), Drop=args.get("drop", False),
                     Length=args.get("length") or args.get("fps", 25) * 43200,
                     DataDefinition=Ref(self.datadef("Timecode")))
        elif cls == "OperationGroup":
            a, k = rng.choice(self.opdefs)
            d = self.f.dictionary["OperationDefinitions"].get(a)
            how = rng.choice([d, a, a.uuid, d["Name"].value])
            o, g = self.call(cls, ["operationdef", "length", "media_kind"],
                             dict(operationdef=how, length=length, media_kind=shown), 1)
            P["Operation"] = Ref(d)
            P["Length"] = g.get("length", 0)
            P["DataDefinition"] = Ref(self.datadef(n if "media_kind" in g else k))
        else:
            o, g = self.call(cls, ["media_kind", "length"], dict(media_kind=shown, length=length))
            P["Length"] = g.get("length", 0)
            P["DataDefinition"] = Ref(self.datadef(n if "media_kind" in g else "Picture"))
            if cls == "Sequence":
                P["Components"] = []
        return o, P

    def slot(self):
        rng = self.rng
        cls = rng.choice(SLOTS)
        name, sid = self.text(), rng.randint(1, 500000)
        scls = rng.choice([s for s in SEGMENTS if s != "Transition"])
        if scls == "OperationGroup" or rng.random() < 0.5:
            scls = "Filler"
        seg, segP = self.component(scls)
        vals = dict(slot_id=sid, name=name, segment=seg)
        order = ["slot_id", "name", "segment"]
        P = {}
        if cls == "TimelineMobSlot":
            order += ["origin", "edit_rate"]
            rate, n, d = self.rate()
            vals.update(origin=aafvals.rint(rng, 8, True), edit_rate=rate)
        o, g = self.call(cls, order, vals)
        P["SlotID"] = g.get("slot_id")
        P["SlotName"] = g.get("name", "")
        P["Segment"] = g.get("segment")
        if cls == "TimelineMobSlot":
            P["Origin"] = g.get("origin", 0)
            P["EditRate"] = AAFRational(n, d) if "edit_rate" in g else AAFRational(25, 1)
        return cls, o, P, scls, seg, segP

    def mob(self, cls=None):
        rng = self.rng
        cls = cls or rng.choice(MOBS)
        name = self.text()
        t0 = datetime.datetime.now()
        o, g = self.call(cls, ["name"], dict(name=name))
        t1 = datetime.datetime.now()
        P = {"Name": g.get("name") or "Mob", "Slots": []}
        for k in ("CreationTime", "LastModified"):
            t = o[k].value
            self.ctx.check(t0 - datetime.timedelta(seconds=1) <= t <= t1 + datetime.timedelta(seconds=1), "construct", lambda:
                           "%s of a new mob is %s" % (k, t))
        m = o["MobID"].value
        self.ctx.check(m is not None and m not in self.made and not self.f.content.mobs.get(m), "construct",
                       "a new mob has no id of its own")
        self.made.add(MobID(bytes_le=bytes(m.bytes_le)))
        P["MobID"] = MobID(bytes_le=bytes(m.bytes_le))
        return cls, o, P

    def definition(self):
        rng = self.rng
        cls = rng.choice(sorted(DEFS))
        a = aafvals.rauid(rng)
        vals = dict(auid=rng.choice([a, str(a), a.uuid]), name="d%d%s" % (len(self.items), self.text()), description=self.text())
        order = ["auid", "name", "description"]
        P = {}
        req = 1
        t = dd = None
        if cls == "ParameterDef":
            t = self.f.metadict.lookup_typedef(rng.choice(["aafInt32", "Rational", "aafString"]))
            vals["typedef"] = rng.choice([t, t.auid, t.type_name])
            order.append("typedef")
        if cls == "CodecDef":
            vals["dictionary"] = self.f.dictionary
            order = ["dictionary"] + order + ["classdef", "datadef_names"]
            req = 2
            vals["classdef"] = "FileDescriptor"
            dd = [self.kind() for _ in range(2)]
            vals["datadef_names"] = [s for _, s in dd]
        o, g = self.call(cls, order, vals, req)
        P["Identification"] = a
        P["Name"] = g.get("name")
        P["Description"] = g.get("description")
        if cls == "ParameterDef":
            P["Type"] = Ref(t) if "typedef" in g else None
        if cls == "CodecDef":
            P["FileDescriptorClass"] = Ref(self.f.metadict.lookup_classdef("FileDescriptor")) if "classdef" in g else None
            P["DataDefinitions"] = [Ref(self.datadef(n)) for n, _ in dd] if "datadef_names" in g else []
        ck = self.ctx.check
        ck(key(o.auid) == key(a) and o.uuid == a.uuid, "attribute", "id of a definition")
        self.compare(cls, o, P, "constructed")
        if rng.random() < 0.3:
            a = P["Identification"] = aafvals.rauid(rng)
            if rng.random() < 0.5:
                o.uuid = a.uuid
            else:
                o.auid = a
            self.ctx.note("attribute_sets")
            ck(key(o.auid) == key(a) and o.uuid == a.uuid, "attribute", "id of a definition after it is set")
            self.compare(cls, o, P, "set")
        # everything required, then into the dictionary
        if P["Name"] is None:
            o.name = P["Name"] = "named %d" % len(self.items)
        if cls == "ParameterDef" and P["Type"] is None:
            o["Type"].value = t
            P["Type"] = Ref(t)
        if cls == "CodecDef":
            if P["FileDescriptorClass"] is None:
                o["FileDescriptorClass"].value = c = self.f.metadict.lookup_classdef("FileDescriptor")
                P["FileDescriptorClass"] = Ref(c)
            if not P["DataDefinitions"]:
                o["DataDefinitions"].value = [self.datadef("Picture")]
                P["DataDefinitions"] = [Ref(self.datadef("Picture"))]
        if cls == "OperationDef":
            n, shown = self.kind()
            o.media_kind = shown
            o["IsTimeWarp"].value = False
            o["Bypass"].value = 0
            o.number_inputs = 2
            o["OperationCategory"].value = "OperationCategory_Effect"
            P["DataDefinition"] = Ref(self.datadef(n))
            P["NumberInputs"] = 2
        self.f.dictionary.register_def(o)
        name = DEFS[cls]
        self.items.append(Item(cls, o, lambda f: f.dictionary[name].get(a), P))

    def tagged(self):
        rng = self.rng
        v = rng.choice([self.text() or "t", rng.randint(-5, 5000), AAFRational(1, 3), 0])
        name = "tag %d" % len(self.items)
        if rng.random() < 0.3:
            td = rng.choice(["aafInt64", "aafUInt16", "aafInt32"])
            v = rng.randint(0, 60000)
            o = self.f.create.TaggedValue(name, v, self.f.metadict.lookup_typedef(td))
            want = td
        else:
            o = self.f.create.TaggedValue(name, v)
            want = {str: "aafString", int: "aafInt32", AAFRational: "Rational"}[type(v)]
        self.ctx.note("constructed")
        ck = self.ctx.check
        P = {"Name": name, "Value": v}
        self.compare("TaggedValue", o, P, "constructed")
        if rng.random() < 0.4:
            name = P["Name"] = "renamed %d" % len(self.items)
            o.name = name
            if rng.random() < 0.5:
                v = P["Value"] = rng.choice(["other", 77, AAFRational(2, 3)])
                if rng.random() < 0.5:
                    o.value = v
                else:
                    o.encode_value(v)
                want = {str: "aafString", int: "aafInt32", AAFRational: "Rational"}[type(v)]
            self.ctx.note("attribute_sets")
            self.compare("TaggedValue", o, P, "set")
        ck(o.name == name and key(o.value) == key(v) and o.value_typedef.type_name == want, "attribute", lambda:
           "a tagged value %s of type %s has value %s of type %s" % (short(v), want, short(o.value), o.value_typedef))
        m = self.f.create.MasterMob("t")
        m["UserComments"].append(o)
        self.f.content.mobs.append(m)
        mid = m.mob_id
        self.items.append(Item("TaggedValue", o, lambda f: f.content.mobs.get(mid)["UserComments"][0], P))

    def define(self, o, d):
        """a parameter gets its definition after it was made"""
        other = self.f.dictionary["ParameterDefinitions"].get(self.rng.choice(self.pdefs)[0])
        for x in ([other] if self.rng.random() < 0.5 else []) + [d]:
            if self.rng.random() < 0.5:
                o.parameterdef = x
            else:
                o.auid = x.auid
            self.ctx.check(o.parameterdef is x and key(o["Definition"].value) == key(x.auid), "attribute",
                           "definition of a parameter after it is set")

    def parameters(self):
        rng, f, ck = self.rng, self.f, self.ctx.check
        a, t = rng.choice(self.pdefs)
        d = f.dictionary["ParameterDefinitions"].get(a)
        how = rng.choice([d, a, a.uuid, d["Name"].value])
        v = rng.randint(1, 1000) if t == "aafInt32" else AAFRational(rng.randint(1, 99), 7)
        const = rng.random() < 0.5
        if const:
            r = rng.random()
            if r < 0.35:
                o = f.create.ConstantValue(how, v)
            elif r < 0.7:
                o = f.create.ConstantValue(parameterdef=how, value=v)
            else:
                o = f.create.ConstantValue()
                self.define(o, d)
                o.value = 1 if t == "aafInt32" else AAFRational(5, 6)
                o.value = v
                self.ctx.note("attribute_sets")
            P = {"Definition": a, "Value": v}
            ck(key(o.value) == key(v) and o.typedef.type_name == t and key(o.value_at(5)) == key(v), "attribute",
               "value of a constant parameter")
            cls = "ConstantValue"
        else:
            i = [x for x in f.dictionary["InterpolationDefinitions"].values()]
            if not i:
                n = f.create.InterpolationDef(aafvals.rauid(rng), "interp", "")
                f.dictionary.register_def(n)
                i = [n]
            i = rng.choice(sorted(i, key=lambda x: str(x.auid)))
            if rng.random() < 0.6:
                o = f.create.VaryingValue(how, rng.choice([i, i.auid, i["Name"].value]))
            else:
                o = f.create.VaryingValue()
                self.define(o, d)
                setattr(o, rng.choice(["interpolationdef", "interpolation"]), i)
                self.ctx.note("attribute_sets")
            P = {"Definition": a, "Interpolation": Ref(i)}
            ck(key(o.interpolationdef) == key(i) and key(o.interpolation) == key(i) and o.typedef.type_name == t, "attribute",
               "interpolation of a varying parameter")
            for k in range(3):
                c = o.add_keyframe(k, v)
                ck(c["Time"].value == k and key(c["Value"].value) == key(v) and c.time == k and c.value == float(v), "attribute",
                   lambda: "a key frame at %d with %s has %s, %s" % (k, v, c["Time"].value, c["Value"].value))
            if t == "Rational" and rng.random() < 0.5:
                # the last point changes place and value
                x = AAFRational(rng.randint(1, 99), rng.choice([1, 2, 8]))
                y = AAFRational(rng.randint(3, 99), rng.choice([1, 4]))
                c.time, c.value = y, x
                self.ctx.note("attribute_sets")
                ck(key(c["Time"].value) == key(y) and key(c["Value"].value) == key(x) and c.time == float(y)
                   and c.value == float(x), "attribute", lambda: "a point set to %s, %s has %s, %s" % (
                       y, x, c["Time"].value, c["Value"].value))
                ck(o.pointlist.value[-1] is c and [p.time for p in o.pointlist] == [0, 1, float(y)], "attribute",
                   "points of a parameter")
            cls = "VaryingValue"
        self.ctx.note("constructed")
        self.ctx.log("create", cls)
        ck(o.parameterdef is d and key(o.auid) == key(a) and o.name == d["Name"].value, "attribute", lambda:
           "definition of a parameter is %s, %s, %s" % (o.parameterdef, o.auid, o.name))
        self.compare(cls, o, P, "constructed")
        oa, _ = rng.choice(self.opdefs)
        g = f.create.OperationGroup(oa, 5, "picture")
        how = rng.random()
        if how > 0.55:
            # what is assigned afterwards replaces this one
            g.parameters = [self.f.create.ConstantValue(b, 3 if t2 == "aafInt32" else AAFRational(1, 3)) for b, t2 in [
                rng.choice(self.pdefs)]]
        if how < 0.4:
            g.parameters.append(o)
        elif how < 0.7:
            g.parameters = [o]
        else:
            g["Parameters"].value = [o]
        ck([x for x in g["Parameters"]] == [o] and [x for x in g.parameters] == [o], "attribute", "parameters of a group")
        seg = f.create.Filler("picture", 3)
        g.segments.append(seg)
        ck(list(g["InputSegments"]) == [seg], "attribute", "segments of a group")
        m = f.create.CompositionMob("p")
        m.create_timeline_slot(25).segment = g
        f.content.mobs.append(m)
        mid = m.mob_id
        self.items.append(Item(cls, o, lambda f: f.content.mobs.get(mid).slots[0].segment["Parameters"].get(a), P))

    # --- comparison ------------------------------------------------------------------
    def compare(self, cls, o, P, when):
        for name, want in sorted(P.items()):
            self.ctx.note("properties_compared")
            if when == "reopened":
                self.ctx.note("compared_reopened")
            p = o[name]
            got = list(p.value) if isinstance(want, list) else p.value
            if want is None:
                ok = got is None and name not in o
            elif isinstance(want, list):
                ok = [key(x) for x in got] == [key(x) for x in want]
            else:
                ok = key(got) == key(want)
            self.ctx.check(ok, when, lambda: "%s: %s.%s is %s, expected %s" % (when, cls, name, short(got), short(want)))

    def attributes(self, it):
        for attr, (prop, kind) in ATTRS.get(it.cls, {}).items():
            if prop not in it.props:
                continue
            want = it.props[prop]
            got = getattr(it.o, attr)
            self.ctx.note("properties_compared")
            if kind == "kind":
                names = [n for n, a in self.kinds.items() if isinstance(want, Ref) and a == want.id]
                ok = got == (names[0] if names else None)
            else:
                ok = key(got) == key(want)
            self.ctx.check(ok, "attribute", lambda: "%s.%s is %s, the property %s should be %s" % (
                it.cls, attr, short(got), prop, short(want)))

    def change(self):
        rng = self.rng
        its = [it for it in self.items if ATTRS.get(it.cls)]
        if not its:
            return
        it = rng.choice(its)
        attr = rng.choice(sorted(ATTRS[it.cls]))
        prop, kind = ATTRS[it.cls][attr]
        if it.cls in DEFS and attr == "name":
            return
        v, shown, held = self.value(kind)
        self.ctx.distinct((it.cls, attr))
        if kind != "kind" and rng.random() < 0.35:
            self.ctx.log("property", it.cls, prop, short(v))
            self.ctx.note("property_sets")
            it.o[prop].value = v
        else:
            self.ctx.log("attribute", it.cls, attr, short(v))
            self.ctx.note("attribute_sets")
            setattr(it.o, attr, v)
        it.props[prop] = held
        self.compare(it.cls, it.o, it.props, "set")
        self.attributes(it)

    def fill(self, o):
        """what else the object needs to be stored"""
        for p in sorted(o.classdef.all_propertydefs(), key=lambda p: p.property_name):
            if p.optional or p.property_name == "ObjClass" or p.property_name in o:
                continue
            make = FILL.get(p.typedef.type_name)
            if make:
                o[p.property_name].value = make(self)

    # --- placing ----------------------------------------------------------------------
    def put_mob(self):
        rng, f = self.rng, self.f
        cls, m, P = self.mob()
        self.compare(cls, m, P, "constructed")
        if cls == "SourceMob":
            dc = rng.choice(DESCS)
            d = f.create.from_name(dc)
            if rng.random() < 0.3:
                m.descriptor = f.create.from_name(rng.choice(DESCS + [dc]))
            if rng.random() < 0.5:
                m.descriptor = d
            else:
                m["EssenceDescription"].value = d
            self.fill(d)
            self.ctx.check(m.descriptor is d and m["EssenceDescription"].value is d, "attribute", "descriptor of a mob")
        else:
            d = None
        n = rng.choice([0, 1, 2])
        slots = []
        for _ in range(n):
            scls, s, SP, gcls, seg, segP = self.slot()
            self.compare(gcls, seg, segP, "constructed")
            self.compare(scls, s, SP, "constructed")
            if SP["SlotID"] is None:
                sid = rng.randint(1, 500000)
                s.slot_id = sid
                SP["SlotID"] = sid
            if SP["Segment"] is None:
                s.segment = seg
                SP["Segment"] = seg
            if rng.random() < 0.2:
                s.segment = f.create.from_name(rng.choice([gcls, "Filler"])) if gcls != "OperationGroup" else f.create.Filler(
                    "picture", 9)
                s.segment = seg
                SP["Segment"] = seg
            self.ctx.check(s.segment is seg and s["Segment"].value is seg, "attribute", "segment of a slot")
            if scls == "TimelineMobSlot":
                pass
            elif scls == "EventMobSlot":
                v, n1, d1 = self.rate()
                s.edit_rate = v
                SP["EditRate"] = AAFRational(n1, d1)
            self.ctx.check(key(s.datadef) == key(seg.datadef) and s.media_kind == seg.media_kind, "attribute", lambda:
                           "media kind of a slot is %s, of its segment %s" % (s.media_kind, seg.media_kind))
            self.fill(seg)
            slots.append((scls, s, SP, gcls, seg, segP))
            m.slots.append(s)
        f.content.mobs.append(m)
        mid = P["MobID"]
        del P["Slots"]
        self.items.append(Item(cls, m, lambda f: f.content.mobs.get(mid), P))
        if d is not None and ATTRS.get(type(d).__name__):
            self.items.append(Item(type(d).__name__, d, lambda f: f.content.mobs.get(mid).descriptor, {}))
        for i, (scls, s, SP, gcls, seg, segP) in enumerate(slots):
            del SP["Segment"]
            segP.pop("Components", None)
            self.items.append(Item(scls, s, lambda f, i=i: f.content.mobs.get(mid).slots[i], SP))
            self.items.append(Item(gcls, seg, lambda f, i=i: f.content.mobs.get(mid).slots[i].segment, segP))

    def put_seq(self):
        """components of a sequence, transitions and operation groups among them"""
        rng, f = self.rng, self.f
        m = f.create.CompositionMob("s")
        seq = f.create.Sequence("picture")
        m.create_timeline_slot(25).segment = seq
        f.content.mobs.append(m)
        mid = m.mob_id
        for i in range(rng.choice([1, 3])):
            cls = rng.choice(SEGMENTS)
            o, P = self.component(cls)
            self.compare(cls, o, P, "constructed")
            P.pop("Components", None)
            if cls == "Transition":
                g = f.create.OperationGroup(rng.choice(self.opdefs)[0], 1, "picture")
                o["OperationGroup"].value = g
                o.cutpoint = P["CutPoint"] = rng.randint(0, 9)
            self.fill(o)
            seq.components.append(o)
            self.items.append(Item(cls, o, lambda f, i=i: f.content.mobs.get(mid).slots[0].segment.components[i], P))

    def factory(self):
        rng, f, ck = self.rng, self.f, self.ctx.check
        cls = rng.choice(MOBS)
        m = f.create.from_name(cls, "factory")
        if cls == "SourceMob":
            m.descriptor = f.create.ImportDescriptor()
        f.content.mobs.append(m)
        mid = m.mob_id
        used = []
        for k in range(rng.choice([2, 4])):
            rate, n, d = self.rate()
            sid = rng.choice([None, None, rng.randint(100, 1000)])
            if sid in used:
                sid = None
            kind, shown = self.kind()
            kind_given = rng.random() < 0.6
            what = rng.choice(["timeline", "sequence", "picture", "sound"] + (["empty", "timecode", "essence"] if
                                                                             cls == "SourceMob" else []))
            if what == "essence" and (1 in used or f.content.essencedata.get(mid) is not None):
                what = "empty"
            self.ctx.note("factory_calls")
            self.ctx.log("factory", cls, what, sid)
            self.ctx.distinct(("factory", what, sid is None, kind_given, cls))
            before = list(m.slots)
            seg = None
            expect = {}
            if what == "timeline":
                s = m.create_timeline_slot(rate, sid) if rng.random() < 0.5 else m.create_timeline_slot(edit_rate=rate, slot_id=sid)
            elif what == "sequence":
                s = m.create_empty_sequence_slot(rate, slot_id=sid, media_kind=shown if kind_given else None)
                seg = ("Sequence", {"Components": [], "Length": 0, "DataDefinition": Ref(self.datadef(
                    kind if kind_given else "Picture"))})
            elif what in ("picture", "sound"):
                sid = None
                if rng.random() < 0.3:
                    n, d = 25, 1
                    s = getattr(m, "create_%s_slot" % what)()
                else:
                    s = getattr(m, "create_%s_slot" % what)(rate)
                seg = ("Sequence", {"Components": [], "Length": 0, "DataDefinition": Ref(self.datadef(what.capitalize()))})
            elif what == "empty":
                s = m.create_empty_slot(rate, shown, sid) if kind_given else m.create_empty_slot(rate, slot_id=sid)
                seg = ("SourceClip", {"StartTime": 0, "Length": 0, "SourceMobSlotID": 0,
                                      "SourceID": MobID(bytes_le=b"\0" * 32),
                                      "DataDefinition": Ref(self.datadef(kind if kind_given else "Picture"))})
            elif what == "timecode":
                sid = None
                fps, drop = rng.choice([24, 25, 30]), rng.random() < 0.5
                length = rng.choice([None, 1000])
                s = m.create_timecode_slot(rate, fps, drop, length)
                seg = ("Timecode", {"FPS": fps, "Drop": drop, "Start": 0, "Length": length or fps * 43200,
                                    "DataDefinition": Ref(self.datadef("Timecode"))})
            else:
                off = rng.random() < 0.4
                e, s = m.create_essence(rate, shown, offline=off) if kind_given else m.create_essence(rate, offline=off)
                sid = 1
                if off:
                    ck(e is None and f.content.essencedata.get(mid) is None, "factory", "offline essence has data")
                else:
                    ck(e is not None and f.content.essencedata.get(mid) is e and key(e.mob_id) == key(mid) and e.mob is m,
                       "factory", "new essence does not belong to its mob")
                    e.open("w").write(b"x")
                seg = ("SourceClip", {"StartTime": 0, "Length": 0, "SourceMobSlotID": 0,
                                      "SourceID": MobID(bytes_le=b"\0" * 32),
                                      "DataDefinition": Ref(self.datadef(kind if kind_given else "Picture"))})
            if sid is None:
                sid = 1
                while sid in used:
                    sid += 1
            used.append(sid)
            ck(list(m.slots) == before + [s], "factory", "a new slot is not the last slot of its mob")
            P = {"SlotID": sid, "SlotName": "", "Origin": 0, "EditRate": AAFRational(n, d)}
            self.compare("TimelineMobSlot", s, P, "factory")
            ck(m.slot_at(sid) is s, "factory", "a new slot is not found by its id")
            i = len(before)
            if seg is None:
                g = f.create.Filler("picture", 7)
                s.segment = g
                seg = ("Filler", {"Length": 7})
            else:
                g = s.segment
                ck(type(g).__name__ == seg[0], "factory", lambda: "%s makes a %s" % (what, g))
                self.compare(seg[0], g, seg[1], "factory")
                seg[1].pop("Components", None)
            # a clip of this slot
            full = s.length
            start = rng.choice([None, 0, 3, 10 ** 6])
            length = rng.choice([None, 5])
            k2, shown2 = self.kind()
            given2 = rng.random() < 0.4
            c = m.create_source_clip(sid, start, length, shown2 if given2 else None)
            self.ctx.note("factory_calls")
            want = Ref(self.datadef(k2)) if given2 else Ref(g["DataDefinition"].value)
            self.compare("SourceClip", c, {"SourceID": mid, "SourceMobSlotID": sid, "StartTime": start or 0,
                                           "Length": length or max(full - (start or 0), 0), "DataDefinition": want}, "factory")
            ck(c.mob is m and c.slot is s, "factory", "the clip of a slot does not lead to it")
            self.items.append(Item("TimelineMobSlot", s, lambda f, i=i: f.content.mobs.get(mid).slots[i], P))
            self.items.append(Item(seg[0], g, lambda f, i=i: f.content.mobs.get(mid).slots[i].segment, seg[1]))

    def tape(self):
        rng, f, ck = self.rng, self.f, self.ctx.check
        m = f.create.SourceMob()
        f.content.mobs.append(m)
        mid = m.mob_id
        rate, n, d = self.rate()
        fps, drop = rng.choice([24, 25, 30, 60]), rng.random() < 0.5
        kind, shown = self.kind()
        given = rng.random() < 0.6
        length = rng.choice([None, 1234])
        name = "tape %d" % len(self.items)
        self.ctx.note("factory_calls")
        self.ctx.log("tape", n, d, fps, drop)
        s, t = m.create_tape_slots(name, rate, fps, drop, shown if given else None, length)
        ck(list(m.slots) == [s, t] and m.name == name and type(m.descriptor).__name__ == "TapeDescriptor", "factory",
           "slots, name and descriptor of a tape")
        secs = 43200
        want = [("TimelineMobSlot", s, 0, {"SlotID": 1, "EditRate": AAFRational(n, d), "Origin": 0}),
                ("TimelineMobSlot", t, 1, {"SlotID": 2, "EditRate": AAFRational(n, d), "Origin": 0})]
        for cls, o, i, P in want:
            self.compare(cls, o, P, "factory")
            self.items.append(Item(cls, o, lambda f, i=i: f.content.mobs.get(mid).slots[i], P))
        seg = s.segment
        ck(type(seg).__name__ == "SourceClip" and type(t.segment).__name__ == "Timecode", "factory", "segments of a tape")
        ck(abs(seg.length - n * secs / d) < 2, "factory", lambda: "a tape at %d/%d has length %d" % (n, d, seg.length))
        P = {"StartTime": 0, "DataDefinition": Ref(self.datadef(kind if given else "Picture")), "Length": seg.length,
             "SourceID": MobID(bytes_le=b"\0" * 32)}
        Q = {"FPS": fps, "Drop": drop, "Start": 0, "Length": length or fps * secs}
        self.compare("SourceClip", seg, P, "factory")
        self.compare("Timecode", t.segment, Q, "factory")
        self.items.append(Item("SourceClip", seg, lambda f: f.content.mobs.get(mid).slots[0].segment, P))
        self.items.append(Item("Timecode", t.segment, lambda f: f.content.mobs.get(mid).slots[1].segment, Q))

    def links(self):
        """references set through objects"""
        rng, f, ck = self.rng, self.f, self.ctx.check
        ms = [it for it in self.items if it.cls in MOBS]
        cs = [it for it in self.items if it.cls == "SourceClip"]
        if not ms or not cs:
            return
        m, c = rng.choice(ms), rng.choice(cs)
        self.ctx.note("attribute_sets")
        c.o.mob = m.o
        c.props["SourceID"] = m.props["MobID"]
        ck(c.o.mob is m.o, "attribute", "mob of a clip")
        ss = list(m.o.slots)
        if ss:
            s = rng.choice(ss)
            c.o.slot = s
            c.props["SourceMobSlotID"] = s["SlotID"].value
            ck(c.o.slot["SlotID"].value == s["SlotID"].value, "attribute", "slot of a clip")
        self.compare("SourceClip", c.o, c.props, "set")

    def check_all(self, when):
        for it in self.items:
            self.compare(it.cls, it.o, it.props, when)
            self.attributes(it)

    def reopen(self, mode):
        self.f.close()
        self.f = aaf2.open(self.path, mode)
        self.ctx.note("reopens")
        for it in self.items:
            it.o = it.find(self.f)
            self.ctx.check(it.o is not None and type(it.o).__name__ == it.cls, "reopened", lambda: "%s is now %s" % (
                it.cls, it.o))
        self.check_all("reopened")


def case(ctx, i):
    rng = ctx.rng
    w = World(ctx)
    for session in range(rng.choice([1, 2])):
        for _ in range(rng.choice([8, 20, 40])):
            r = rng.random()
            if r < 0.12:
                w.put_mob()
            elif r < 0.2:
                w.put_seq()
            elif r < 0.28:
                w.definition()
            elif r < 0.33:
                w.tagged()
            elif r < 0.39:
                w.parameters()
            elif r < 0.47:
                w.factory()
            elif r < 0.5:
                w.tape()
            elif r < 0.54:
                w.links()
            elif r < 0.56:
                w.opdef() if rng.random() < 0.5 else w.pdef()
            else:
                w.change()
        w.check_all("session")
        if rng.random() < 0.5:
            w.f.save()
            w.check_all("saved")
        w.reopen("r+")
    w.reopen("r")
    w.f.close()
    vfs.clear()
    ctx.sample([repr(e) for e in ctx.events[:12]] + ["%d objects" % len(w.items)])
