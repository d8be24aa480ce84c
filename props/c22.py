"""Linked media files are described as they are."""
import contextlib
import datetime
import io
import os
import struct
import urllib.parse
import urllib.request
from fractions import Fraction

import aaf2
from aaf2 import ama
from aaf2.auid import AUID
from aaf2.rational import AAFRational
from props.c21 import wav
from vlib import vfs

ID = "C22"
PLAN = {
    "quick": 480, "thorough": 6000,
    "rule": "OPAtom (and other) MXF headers are written set by set: every length coding, alignment grid, fill, order of sets and "
            "of items, unknown sets and items, packages, tracks, nested segments, descriptors, tags and locators with random "
            "values, followed by index, body and footer partitions; WAV and AIFF headers with chunks in every order and probe "
            "metadata with several streams are linked too; the mobs made are compared with the generator's parameters field by "
            "field, in session and after reopening, linked again, and linked together with a file sharing packages; distinct by "
            "(kind, shape)",
    "require": {"mxf": 250, "mxf_mobs": 800, "mxf_segments": 2500, "descriptors": 800, "wav_aiff": 80, "probe": 80,
                "tags": 200, "refused": 20, "relinked": 100},
    "assumptions": ["no run-in, timecode, sequence and descriptor sets carry the items the library links", "audio block size and "
                    "average bytes of probed streams are not judged", "dates to the second", "sampled (display) size not judged"],
}
CASE_CPU = 120


def K(s):
    return bytes.fromhex(s.replace("-", ""))


SET = lambda n: K("060e2b34-0253-0101-0d01-01010101") + bytes([n, 0])
PARTITION = K("060e2b34-0205-0101-0d01-020101020400")
BODY = K("060e2b34-0205-0101-0d01-020101030400")
FOOTER = K("060e2b34-0205-0101-0d01-020101040400")
PRIMER = K("060e2b34-0205-0101-0d01-020101050100")
INDEX = K("060e2b34-0253-0101-0d01-020101100100")
ESSENCE = K("060e2b34-0102-0101-0d01-030115010500")
FILL = K("060e2b34-0101-0102-0301-021001000000")
DYN = {"FrameSampleSize": K("a0240060-94eb-75cb-ce2a-ca5051ab11d3"), "ResolutionID": K("a0240060-94eb-75cb-ce2a-ca4d51ab11d3"),
       "AppCode": K("a0220060-94eb-75cb-96c4-69924f6211d3"), "MobAttributeList": K("a01c0004-ac96-9f50-6095-818347b111d4"),
       "TaggedValueAttributeList": K("a01c0004-ac96-9f50-6095-818547b111d4"),
       "Unknown": K("a01c0004-ac96-9f50-6095-000000000001")}
# label as written in the media (universal label order) -> media kind
UL = {"Picture": K("060e2b34-0401-0101-0103-020201000000"), "Sound": K("060e2b34-0401-0101-0103-020202000000"),
      "Data": K("060e2b34-0401-0101-0103-020203000000"), "Timecode": K("060e2b34-0401-0101-0103-020101000000"),
      "LegacyPicture": K("807d0060-0814-3e6f-6f3c-8ce16cef11d2"), "LegacySound": K("807d0060-0814-3e6f-78e1-ebe16cef11d2"),
      "Unknown": K("060e2b34-0401-0101-0103-020102000000")}
BE = lambda f, *a: struct.pack(">" + f, *a)


class Writer(object):
    def __init__(self, rng):
        self.rng = rng
        self.sets = []
        self.dyn = {}
        tags = rng.sample(range(0x8000, 0xffff), len(DYN))
        for (n, uid), t in zip(sorted(DYN.items()), tags):
            self.dyn[n] = t
        self.style = rng.choice(["mixed", "ber4", "ber9", "short"])

    def ber(self, n):
        rng = self.rng
        st = rng.choice(["ber4", "ber9", "short"]) if self.style == "mixed" else self.style
        if st == "short":
            if n < 128:
                return bytes([n])
            k = (n.bit_length() + 7) // 8
            return bytes([0x80 | k]) + n.to_bytes(k, "big")
        return b"\x83" + n.to_bytes(3, "big") if st == "ber4" else b"\x88" + n.to_bytes(8, "big")

    def klv(self, key, value):
        return key + self.ber(len(value)) + value

    def fill(self, n):
        """fill item of n bytes in all"""
        if n < 25:
            return None
        return FILL + b"\x88" + (n - 25).to_bytes(8, "big") + self.rng.randbytes(n - 25) if n < 400 else FILL + b"\x88" + (n - 25).to_bytes(8, "big") + bytes(n - 25)

    def add(self, cls, items, dark=True):
        rng = self.rng
        ref = rng.randbytes(16)
        items = [(t if isinstance(t, int) else self.dyn[t], v) for t, v in items if v is not None]
        if dark and rng.random() < 0.3:
            items.append((self.dyn["Unknown"], rng.randbytes(rng.choice([0, 1, 16, 300]))))
        if dark and rng.random() < 0.2:
            items.append((rng.choice([0x7001, 0x0102, 0x3c0b]), rng.randbytes(16)))
        items.append((0x3c0a, ref))
        if rng.random() < 0.6:
            rng.shuffle(items)
        else:
            items = items[-1:] + items[:-1]
        v = b"".join(BE("HH", t, len(d)) + d for t, d in items)
        self.sets.append((SET(cls), v))
        return ref

    def file(self, preface, op):
        rng = self.rng
        sets = list(self.sets)
        if rng.random() < 0.3:
            for _ in range(rng.randint(1, 3)):
                v = BE("HH", 0x3c0a, 16) + rng.randbytes(16) + BE("HH", 1, 2) + b"xx"
                sets.insert(rng.randrange(len(sets) + 1), (SET(rng.choice([0x30, 0x7e, 0x61])), v))
        first = [x for x in sets if x[0] == SET(0x2f)]
        rest = [x for x in sets if x[0] != SET(0x2f)]
        if rng.random() < 0.6:
            rng.shuffle(rest)
        kag = rng.choice([1, 1, 256, 512, 512, 0 if rng.random() < 0.3 else 1])
        grid = kag or 1
        primer = BE("II", len(self.dyn) + 1, 18) + BE("H", 0x3c0a) + K("060e2b34-0101-0101-0101-150200000000")
        for n, t in self.dyn.items():
            primer += BE("H", t) + DYN[n]
        header = b""
        for key, v in [(PRIMER, primer)] + first + rest:
            header += self.klv(key, v)
            if rng.random() < 0.1 and key != PRIMER:
                header += self.fill(rng.choice([25, 26, 100]))
        # the last item of the header reaches the grid
        if grid > 1:
            header += self.pad(len(header), grid)
        elif rng.random() < 0.3:
            header += self.fill(rng.choice([25, 60, 8192]))
        index = b""
        if rng.random() < 0.4:
            index = self.klv(INDEX, rng.randbytes(rng.choice([80, 3000])))
            if grid > 1:
                index += self.pad(len(index), grid)
        ncont = rng.choice([0, 1, 1, 3, 26])

        def pack(key, this, prev, footer, hbc, ibc, ber):
            v = BE("HHIQQQQQIQI", 1, 2, kag, this, prev, footer, hbc, ibc, 1 if ibc else 0, 0, 1) + op + BE("II", ncont, 16)
            v += rng.randbytes(16) * ncont
            p = key + ber(len(v)) + v
            if grid > 1:
                p += self.pad(len(p), grid)
            return p
        n = len(header) + len(index)
        head = pack(PARTITION, 0, 0, 0, len(header), len(index), self.ber) + header + index
        body = pack(BODY, len(head), 0, 0, 0, 0, self.ber)
        body += ESSENCE + b"\x88" + BE("Q", 5000) + rng.randbytes(5000)
        r = rng.random()
        if r < 0.4:
            return head + body + pack(FOOTER, len(head) + len(body), len(head), len(head) + len(body), 0, 0, self.ber)
        if r < 0.7:
            return head + body + pack(FOOTER, len(head) + len(body), len(head), len(head) + len(body), len(header), 0, self.ber) + header
        return head + (body if r < 0.85 else b"")

    def pad(self, n, grid):
        k = -n % grid
        if 0 < k < 25:
            k += grid
            while k < 25:
                k += grid
        return self.fill(k) if k else b""


def arr(refs):
    return BE("II", len(refs), 16) + b"".join(refs)


def s16(s):
    return s.encode("utf-16be")


def stamp(d):
    return BE("HBBBBBB", d.year, d.month, d.day, d.hour, d.minute, d.second, 0)


def umid(rng):
    m = K("060a2b34010101050101") + bytes([0x0f, rng.choice([0x00, 0x10, 0x20, 0x30]), 0x13]) + rng.randbytes(3)
    return m + rng.choice([rng.randbytes(16), rng.randbytes(16), K("060e2b347f7f2a80") + rng.randbytes(8)])


def urn(b):
    h = b.hex()
    return "urn:smpte:umid:" + ".".join(h[k:k + 8] for k in range(0, 64, 8))


def text(rng):
    r = rng.random()
    if r < 0.1:
        return "x"
    if r < 0.5:
        return "".join(rng.choice("abc XYZ_-09") for _ in range(rng.randint(1, 30)))
    if r < 0.8:
        return "".join(chr(rng.choice([rng.randint(0x20, 0x7e), rng.randint(0xa1, 0x7ff), rng.randint(0x3040, 0x30ff), 0x1f3ac])) for _ in range(rng.randint(1, 20)))
    return "n" * rng.randint(100, 1000)


RATES = [(25, 1), (24, 1), (30000, 1001), (24000, 1001), (48000, 1), (50, 1), (44100, 1), (60000, 1001), (1, 1)]


def length(rng):
    return rng.choice([0, 1, 100, rng.randint(1, 10 ** 6), rng.randint(0, 2 ** 40), -1 if rng.random() < 0.4 else 7])


# ---- segments ----------------------------------------------------------------------------------------------------------

def segment(w, kind, targets, depth=0, only=None):
    """writes a segment; returns (reference, model)"""
    rng = w.rng
    n = length(rng)
    what = rng.choice(["clip", "clip", "clip", "seq", "seq", "fill", "scope", "group", "pull", "tc"]) if depth < 3 else \
        rng.choice(["clip", "fill", "scope"])
    if depth == 0:
        what = rng.choice(["seq", "seq", "seq", "clip", "tc"])
    what = only or what
    base = [(0x0201, UL[kind]), (0x0202, BE("q", n))]
    m = dict(kind=kind, length=n)
    if what == "clip":
        t = rng.choice(targets)
        m.update(type="SourceClip", mob=t, slot=rng.choice([0, 1, 2, 1000]), start=rng.choice([0, 0, 5, 86400, rng.randint(0, 2 ** 40), -10]))
        r = w.add(0x11, base + [(0x1101, t), (0x1102, BE("I", m["slot"])), (0x1201, BE("q", m["start"]))])
    elif what == "seq":
        kids = [segment(w, kind, targets, depth + 1) for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 5]))]
        m.update(type="Sequence", kids=[k[1] for k in kids])
        r = w.add(0x0f, base + [(0x1001, arr([k[0] for k in kids]))])
    elif what == "fill":
        m.update(type="Filler")
        r = w.add(0x09, base)
    elif what == "scope":
        m.update(type="ScopeReference", scope=rng.randint(0, 5), rslot=rng.randint(0, 1000))
        r = w.add(0x0d, base + [(0x0e01, BE("I", m["scope"])), (0x0e02, BE("I", m["rslot"]))])
    elif what == "group":
        kids = [segment(w, kind, targets, 3, "clip") for _ in range(rng.choice([1, 2]))]
        m.update(type="EssenceGroup", kids=[k[1] for k in kids])
        r = w.add(0x05, base + [(0x0501, arr([k[0] for k in kids]))])
    elif what == "pull":
        k = segment(w, kind, targets, 3)
        m.update(type="Pulldown", kids=[k[1]], pull=(rng.choice([0, 1, 2]), rng.choice([0, 1]), rng.choice([0, 3, -1])))
        r = w.add(0x0c, base + [(0x0d01, k[0]), (0x0d02, BE("B", m["pull"][0])), (0x0d03, BE("B", m["pull"][1])), (0x0d04, BE("i", m["pull"][2]))])
    else:
        m.update(type="Timecode", tc=(rng.choice([0, 90000, 86400 * 30, rng.randint(0, 10 ** 7), -250]), rng.choice([24, 25, 30, 60]), rng.random() < 0.4))
        r = w.add(0x14, base + [(0x1501, BE("q", m["tc"][0])), (0x1502, BE("H", m["tc"][1])), (0x1503, BE("B", m["tc"][2]))])
    return r, m


def judge_segment(ctx, s, m, where):
    ctx.note("mxf_segments")
    ctx.eq(type(s).__name__, m["type"], "segment", where)
    ctx.eq(s.length, m["length"], "segment-length", "%s: %s" % (where, m["type"]))
    ctx.eq(s.media_kind, m["kind"], "segment-kind", "%s: %s" % (where, m["type"]))
    t = m["type"]
    if t == "SourceClip":
        ctx.eq((str(s.mob_id), s.slot_id, s.start), (urn(m["mob"]), m["slot"], m["start"]), "clip", where)
    elif t == "Timecode":
        ctx.eq((s["Start"].value, s["FPS"].value, s["Drop"].value), m["tc"], "timecode", where)
    elif t == "ScopeReference":
        ctx.eq((s["RelativeScope"].value, s["RelativeSlot"].value), (m["scope"], m["rslot"]), "scope", where)
    elif t == "Pulldown":
        p = s["PulldownKind"], s["PulldownDirection"]
        raw = tuple(struct.unpack("<B", bytes(bytearray(x.data)))[0] for x in p)
        ctx.eq(raw + (s["PhaseFrame"].value,), m["pull"], "pulldown", where)
        judge_segment(ctx, s["InputSegment"].value, m["kids"][0], where + "/pulldown")
    if t in ("Sequence", "EssenceGroup"):
        kids = list(s["Components" if t == "Sequence" else "Choices"].value or [])
        ctx.eq(len(kids), len(m["kids"]), "components", where)
        for i, (a, b) in enumerate(zip(kids, m["kids"])):
            judge_segment(ctx, a, b, "%s/%d" % (where, i))


# ---- descriptors --------------------------------------------------------------------------------------------------------

def label(rng):
    return K("060e2b340401010a04010202") + bytes([0x71, rng.randint(1, 40), 0, 0])


def ratio(rng, pool=RATES):
    return rng.choice(pool)


def locators(w):
    rng = w.rng
    urls = ["file:///%s.mxf" % rng.randint(0, 10 ** 6) for _ in range(rng.choice([0, 0, 1, 2]))]
    return urls, [w.add(0x32, [(0x4001, s16(u))]) for u in urls]


def descriptor(w, kind, depth=0):
    rng = w.rng
    m = dict(type=kind)
    props = m["props"] = {}
    if kind in ("TapeDescriptor", "ImportDescriptor"):
        return w.add(0x2e if kind[0] == "T" else 0x4a, []), m
    rate = ratio(rng)
    items = [(0x3001, BE("II", *rate))]
    props["SampleRate"] = Fraction(*rate)
    n = rng.choice([None, 0, 1, 1000, 2 ** 35])
    if n is not None:
        items.append((0x3002, BE("q", n)))
    props["Length"] = n or 0

    def num(tag, name, fmt, v, always=True):
        if always or rng.random() < 0.6:
            items.append((tag, BE(fmt, v)))
            props[name] = v
    num(0x3006, "LinkedSlotID", "I", rng.randint(0, 2 ** 32 - 1), False)
    if kind == "MultipleDescriptor":
        props.pop("LinkedSlotID", None)
        kids = [descriptor(w, rng.choice(["CDCIDescriptor", "PCMDescriptor", "PCMDescriptor", "ANCDataDescriptor"]), 1) for _ in range(rng.choice([1, 2, 3]))]
        m["kids"] = [k[1] for k in kids]
        return w.add(0x44, items + [(0x3f01, arr([k[0] for k in kids]))]), m
    if kind == "ANCDataDescriptor":
        return w.add(0x5c, items), m
    if kind == "PCMDescriptor":
        a = ratio(rng, [(48000, 1), (44100, 1), (96000, 1), (48048, 1)])
        items.append((0x3d03, BE("II", *a)))
        props["AudioSamplingRate"] = Fraction(*a)
        ch, bits = rng.choice([1, 2, 8, 16]), rng.choice([16, 24, 32])
        num(0x3d07, "Channels", "I", ch)
        num(0x3d01, "QuantizationBits", "I", bits)
        num(0x3d0a, "BlockAlign", "H", ch * bits // 8)
        num(0x3d09, "AverageBPS", "I", a[0] * ch * bits // 8)
        if rng.random() < 0.3:
            items.append((0x3d02, b"\1"))
        return w.add(rng.choice([0x48, 0x48, 0x47, 0x42]), items), m
    num(0x3203, "StoredWidth", "I", rng.choice([1920, 1440, 720, 0, rng.randint(1, 70000)]))
    num(0x3202, "StoredHeight", "I", rng.choice([1080, 540, 288, rng.randint(1, 70000)]))
    v = rng.choice([[42, 0], [26, 589], [0, 0], [-1, 5]])
    items.append((0x320d, BE("II", 2, 4) + BE("ii", *v)))
    props["VideoLineMap"] = v
    a = rng.choice([(16, 9), (4, 3), (1920, 1080), (185, 100)])
    items.append((0x320e, BE("II", *a)))
    props["ImageAspectRatio"] = Fraction(*a)
    f = rng.randrange(5)
    items.append((0x320c, BE("B", f)))
    props["FrameLayout"] = ["FullFrame", "SeparateFields", "OneField", "MixedFields", "SegmentedFrame"][f]
    if rng.random() < 0.6:
        c = label(rng)
        items.append((0x3201, c))
        props["Compression"] = c[8:] + c[:8]
    for nme in ("FrameSampleSize", "ResolutionID"):
        if nme == "ResolutionID" and kind == "RGBADescriptor":
            continue
        if rng.random() < 0.5:
            v = rng.choice([0, 1235, 917504, -1, 2 ** 31 - 1])
            items.append((nme, BE("i", v)))
            props[nme] = v
    urls, refs = locators(w)
    if refs or rng.random() < 0.5:
        items.append((0x2f01, arr(refs)))
    if kind == "RGBADescriptor":
        lay = rng.sample([("R", "CompRed"), ("G", "CompGreen"), ("B", "CompBlue"), ("A", "CompAlpha"), ("F", "CompFill")], rng.choice([1, 3, 4]))
        lay = [(a, b, rng.choice([8, 10, 16])) for a, b in lay]
        raw = b"".join(BE("cB", a.encode(), n) for a, b, n in lay)
        items.append((0x3401, raw + bytes(16 - len(raw))))
        m["layout"] = [{"Code": b, "Size": n} for a, b, n in lay]
        return w.add(0x29, items), m
    num(0x3301, "ComponentWidth", "I", rng.choice([8, 10, 12]))
    num(0x3302, "HorizontalSubsampling", "I", rng.choice([1, 2, 4]))
    num(0x3308, "VerticalSubsampling", "I", rng.choice([1, 2]), False)
    m["urls"] = urls
    mpeg = rng.random() < 0.2
    if mpeg:
        props.pop("ResolutionID", None)
    return w.add(0x51 if mpeg else 0x28, items), m


def judge_descriptor(ctx, d, m, where, path):
    ctx.note("descriptors")
    ctx.eq(type(d).__name__ if m["type"] not in ("ANCDataDescriptor",) else d.classdef.class_name, m["type"], "descriptor", where)
    for k, v in m.get("props", {}).items():
        got = d.getvalue(k)
        if isinstance(v, Fraction):
            got = Fraction(got.numerator, got.denominator)
        elif k == "Compression":
            v, got = str(AUID(bytes_be=bytearray(v))), str(got)
        elif k == "VideoLineMap":
            got = list(got)
        ctx.eq(got, v, "descriptor-" + k, where)
    if "layout" in m:
        lay = [dict(x) for x in d["PixelLayout"].value]
        ctx.eq(lay[:len(m["layout"])], m["layout"], "descriptor-layout", where)
        ctx.check(all(x["Size"] == 0 for x in lay[len(m["layout"]):]), "descriptor-layout", where)
    urls = [x["URLString"].value for x in d.getvalue("Locator") or []]
    for u in m.get("urls", []):
        ctx.check(u in urls, "locator", lambda: "%s: locator %r of the media missing, got %s" % (where, u, urls))
    if m["type"] in ("PCMDescriptor", "RGBADescriptor", "ImportDescriptor", "MultipleDescriptor") or m.get("urls"):
        ctx.check("file://" + path in urls, "locator", lambda: "%s: no locator of the file itself, got %s" % (where, urls))
    for i, k in enumerate(m.get("kids", [])):
        kids = d["FileDescriptors"].value
        ctx.eq(len(kids), len(m["kids"]), "descriptor", "number of descriptors")
        judge_descriptor(ctx, kids[i], k, "%s/%d" % (where, i), path)


# ---- packages -----------------------------------------------------------------------------------------------------------

I32 = K("00060e2b-3401-0401-4c00-070101000000")
U16LE = K("00060e2b-3401-0401-4c00-021001000000")
U16BE = K("00060e2b-3401-0401-4201-100200000000")


def swap(b):
    return b[8:] + b[:8]


def tag(w, depth=0):
    rng = w.rng
    name = text(rng)
    r = rng.random()
    if r < 0.35:
        v = text(rng)
        data = swap(U16LE) + b"\1" + v.encode("utf-16le") + rng.choice([b"", b"\0\0"])
    elif r < 0.55:
        v = text(rng)
        data = swap(U16BE) + b"\1" + v.encode("utf-16be") + rng.choice([b"", b"\0\0"])
    elif r < 0.85:
        v = rng.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, 12345])
        data = swap(I32) + b"\1" + struct.pack("<i", v)
    else:
        v = None
        data = rng.randbytes(16) + b"\1" + rng.randbytes(4)
    kids = [tag(w, depth + 1) for _ in range(rng.choice([0, 1, 2]))] if depth < 2 and rng.random() < 0.3 else []
    items = [(0x5001, s16(name) + rng.choice([b"", b"\0\0"])), (0x5003, data)]
    if kids:
        items.append(("TaggedValueAttributeList", arr([k[0] for k in kids])))
    return w.add(0x3f, items), (name, v, [k[1] for k in kids if k[1][1] is not None])


def judge_tags(ctx, prop, want, where):
    got = list(prop.value or [])
    want = [t for t in want if t[1] is not None]
    ctx.eq(len(got), len(want), "tags", where)
    for g, (n, v, kids) in zip(got, want):
        ctx.note("tags")
        ctx.eq((g.name, g.value), (n, v), "tags", where)
        judge_tags(ctx, g["TaggedValueAttributeList"], kids, where + "/" + n) if kids else None


def package(w, cls, mid, desc, targets, kinds):
    rng = w.rng
    m = dict(cls="MasterMob" if cls == 0x36 else "SourceMob", id=mid, tracks=[], tags=[], attrs=[])
    refs = []
    ids = rng.sample(range(1, 50), len(kinds)) if rng.random() < 0.5 else list(range(1, len(kinds) + 1))
    for sid, kind in zip(ids, kinds):
        t = dict(id=sid, name=rng.choice([None, "V1", text(rng)]), rate=ratio(rng), origin=rng.choice([0, 0, 100, -5]), number=rng.choice([None, 0, 1, 0x15010500, 2 ** 32 - 1]))
        items = [(0x4801, BE("I", sid)), (0x4b01, BE("II", *t["rate"])), (0x4b02, BE("q", t["origin"]))]
        if t["name"] is not None:
            items.append((0x4802, s16(t["name"]) + rng.choice([b"", b"\0\0", b"\0\0ab"])))
        if t["number"] is not None:
            items.append((0x4804, BE("I", t["number"])))
        skip = rng.random() < 0.12
        sr, t["seg"] = segment(w, kind, targets)
        items.append((0x4803, sr))
        refs.append(w.add(rng.choice([0x3a, 0x39]) if skip else 0x3b, items))
        if not skip:
            m["tracks"].append(t)
    now = datetime.datetime(rng.randint(1980, 2090), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
    m["modified"], m["created"] = now, now.replace(year=now.year - 5)
    items = [(0x4401, mid), (0x4403, arr(refs)), (0x4404, stamp(m["modified"])), (0x4405, stamp(m["created"]))]
    m["name"] = rng.choice([None, text(rng), text(rng)])
    if m["name"] is not None:
        items.append((0x4402, s16(m["name"]) + rng.choice([b"", b"\0\0"])))
    m["usage"] = rng.choice([None, None, K("0d010102-0101-0900-060e-2b3404010101"), K("0d010102-0101-0800-060e-2b3404010101")])
    if m["usage"]:
        items.append((0x4408, m["usage"]))
    m["app"] = rng.choice([None, None, 7, -1])
    if m["app"] is not None:
        items.append(("AppCode", BE("i", m["app"])))
    for n, t in (("tags", 0x4406), ("attrs", "MobAttributeList")):
        if rng.random() < 0.4:
            ts = [tag(w) for _ in range(rng.choice([0, 1, 2, 4]))]
            m[n] = [x[1] for x in ts]
            items.append((t, arr([x[0] for x in ts])))
    if desc:
        dr, m["desc"] = descriptor(w, desc)
        items.append((0x4701, dr))
    return w.add(cls, items), m


def judge_package(ctx, mob, m, where, path, linked_at):
    ctx.note("mxf_mobs")
    ctx.eq(type(mob).__name__, m["cls"], "mob", where)
    ctx.eq(str(mob.mob_id), urn(m["id"]), "mob-id", where)
    if m["name"] is not None:
        ctx.eq(mob.name, m["name"], "mob-name", where)
    ctx.eq([s.slot_id for s in mob.slots], [t["id"] for t in m["tracks"]], "tracks", where)
    for s, t in zip(mob.slots, m["tracks"]):
        w = "%s track %d" % (where, t["id"])
        ctx.eq(Fraction(s.edit_rate.numerator, s.edit_rate.denominator), Fraction(*t["rate"]), "edit-rate", w)
        ctx.eq(s.origin, t["origin"], "origin", w)
        if t["name"] is not None:
            ctx.eq(s.name, t["name"], "track-name", w)
        ctx.eq(s.getvalue("PhysicalTrackNumber"), t["number"], "track-number", w)
        judge_segment(ctx, s.segment, t["seg"], w)
    ctx.eq(mob["LastModified"].value.replace(microsecond=0), m["modified"], "dates", where)
    ctx.eq(mob["CreationTime"].value.replace(microsecond=0), m["created"], "dates", where)
    ctx.eq(mob.getvalue("AppCode"), m["app"], "appcode", where)
    if m["usage"]:
        ctx.eq(str(mob["UsageCode"].value), mob_usage(mob, m), "usage", where)
    judge_tags(ctx, mob["UserComments"], m["tags"], where + " comments")
    judge_tags(ctx, mob["MobAttributeList"], m["attrs"], where + " attributes")
    if "desc" in m:
        judge_descriptor(ctx, mob.descriptor, m["desc"], where + " descriptor", path)


USAGE = {K("0d010102-0101-0900-060e-2b3404010101"): "Usage_Template", K("0d010102-0101-0800-060e-2b3404010101"): "Usage_LowerLevel"}


def mob_usage(mob, m):
    u = mob["UsageCode"].value
    return str(u) if str(u) in (USAGE[m["usage"]], str(AUID(bytes_be=bytearray(m["usage"])))) else "usage " + USAGE[m["usage"]]


def mxf(ctx, f, i, shared=None, op=None):
    """a media file; returns (path, [package models])"""
    rng = ctx.rng
    w = Writer(rng)
    vid = rng.random() < 0.6
    kind = rng.choice(["Picture", "LegacyPicture"]) if vid else rng.choice(["Sound", "LegacySound"])
    tape = shared["id"] if shared else umid(rng)
    file_id, mat = umid(rng), umid(rng)
    other = lambda: [rng.choice([kind, kind, "Timecode", "Data", "Unknown"]) for _ in range(rng.choice([1, 1, 2, 4]))]
    mats = [package(w, 0x36, mat, None, [file_id], [kind] + other())]
    d = rng.choice(["CDCIDescriptor", "CDCIDescriptor", "RGBADescriptor", "MultipleDescriptor"]) if vid else \
        rng.choice(["PCMDescriptor", "PCMDescriptor", "MultipleDescriptor", "ANCDataDescriptor"])
    files = [package(w, 0x37, file_id, d, [tape, bytes(32)], [kind] + (other() if rng.random() < 0.3 else []))]
    tapes = [package(w, 0x37, tape, rng.choice(["TapeDescriptor", "ImportDescriptor"]), [bytes(32)], [kind, "Timecode"])] if rng.random() < 0.8 else []
    pk = mats + files + tapes
    if rng.random() < 0.5:
        rng.shuffle(pk)
    ess = w.add(0x23, [(0x2701, file_id), (0x3f07, BE("I", 1))])
    cs = w.add(0x18, [(0x1901, arr([p[0] for p in pk])), (0x1902, arr([ess]))])
    if op is None:
        op = K("060e2b34-0401-010%d-0d01-020110%02x0000" % (rng.choice([1, 2, 3]), rng.choice([0, 1, 2, 3])))
    pre = w.add(0x2f, [(0x3b03, cs), (0x3b09, op), (0x3b05, BE("H", 258)), (0x3b02, stamp(datetime.datetime(2020, 1, 1)))])
    path = vfs.put("dir/media file-%d.mxf" % i, w.file(pre, op))
    ctx.note("mxf")
    ctx.distinct(("mxf", d, len(pk), [len(p[1]["tracks"]) for p in pk], w.style))
    return path, [p[1] for p in pk]


def judge_mxf(ctx, f, models, path, when):
    for m in models:
        mob = next((x for x in f.content.mobs if str(x.mob_id) == urn(m["id"])), None)
        ctx.check(mob is not None, "mob", lambda: "%s: package %s has no mob" % (when, urn(m["id"])))
        judge_package(ctx, mob, m, "%s: %s" % (when, m["cls"]), path, None)


def link(ctx, f, path):
    if ctx.rng.random() < 0.7:
        return f.content.link_external_mxf(path)
    with contextlib.redirect_stdout(io.StringIO()):
        return ama.create_media_link(f, path, None)


def case_mxf(ctx, i):
    rng = ctx.rng
    out = vfs.new("link-%d.aaf" % i)
    f = aaf2.open(out, "w")
    done = []
    for k in range(rng.choice([1, 1, 2])):
        shared = None
        if done and rng.random() < 0.6:
            shared = next((m for m in done[0][1] if m.get("desc", {}).get("type") in ("TapeDescriptor", "ImportDescriptor")), None)
        path, models = mxf(ctx, f, k, shared)
        have = set(str(m.mob_id) for m in f.content.mobs)
        got = link(ctx, f, path)
        fresh = [m for m in models if urn(m["id"]) not in have]
        ctx.eq([str(m.mob_id) for m in got], [urn(m["id"]) for m in fresh], "linked", "mobs returned")
        ctx.eq(len(f.content.mobs), len(have) + len(fresh), "linked", "mobs in the file")
        done.append((path, fresh))
        judge_mxf(ctx, f, fresh, path, "in session")
    if rng.random() < 0.5:
        n = len(f.content.mobs)
        ctx.eq(link(ctx, f, done[0][0]), [], "relink", "mobs of a file linked again")
        ctx.eq(len(f.content.mobs), n, "relink", "mobs after linking again")
        ctx.note("relinked")
    if rng.random() < 0.15:
        bad = K("060e2b34-0401-0101-0d01-0201%02x%02x0900" % (rng.choice([1, 2, 3]), rng.choice([1, 2, 3])))
        path, _ = mxf(ctx, f, 99, op=bad)
        n = len(f.content.mobs)
        ctx.raises((Exception,), "pattern", f.content.link_external_mxf, path)
        ctx.eq(len(f.content.mobs), n, "pattern", "mobs after a refused link")
        ctx.note("refused")
    f.close()
    for mode in ("r", "r+", "r"):
        f = aaf2.open(out, mode)
        for path, models in done:
            judge_mxf(ctx, f, models, path, "reopened " + mode)
        f.close()


# ---- WAV, AIFF and probed files ---------------------------------------------------------------------------------------

def aiff(rng):
    ch, bits, rate, frames = rng.choice([1, 2]), rng.choice([16, 24]), rng.choice([48000, 44100]), rng.randint(0, 4000)
    c = rng.random() < 0.5
    ext = struct.pack(">HQ", 16383 + rate.bit_length() - 1, rate << (64 - rate.bit_length()))
    comm = BE("HIH", ch, frames, bits) + ext + (b"NONE\x0enot compressed\0" if c else b"")
    chunks = [(b"COMM", comm), (b"SSND", BE("II", 0, 0) + rng.randbytes(frames * ch * bits // 8))]
    for _ in range(rng.choice([0, 1, 3])):
        chunks.append((rng.choice([b"NAME", b"AUTH", b"MARK", b"FVER", b"COMT"]), rng.randbytes(rng.choice([0, 1, 4, 77]))))
    rng.shuffle(chunks)
    body = b"AIFC" if c else b"AIFF"
    for cid, d in chunks:
        body += cid + BE("I", len(d)) + d + (b"\0" if len(d) & 1 else b"")
    total = b"FORM" + BE("I", len(body)) + body
    summary = total[:12] + b"COMM" + BE("I", len(comm)) + comm
    return total, summary, ch, rate, frames


PROFILES = {"Baseline": "04010202-0131-1001-060e-2b340401010d", "Constrained Baseline": "04010202-0131-1101-060e-2b340401010d",
            "Main": "04010202-0131-2001-060e-2b340401010d", "Extended": "04010202-0131-3001-060e-2b340401010d",
            "High": "04010202-0131-4001-060e-2b340401010d", "High 10": "04010202-0131-5001-060e-2b340401010d",
            "High 4:2:2": "04010202-0131-6001-060e-2b340401010d", "High 10 Intra": "04010202-0132-2001-060e-2b340401010a",
            "High 4:2:2 Intra": "04010202-0132-3001-060e-2b340401010a", "High 4:4:4 Predictive": "04010202-0000-0000-060e-2b3404010101",
            None: "04010202-0000-0000-060e-2b3404010101"}
PIX = {"yuv420p": (8, 2, 2), "yuvj420p": (8, 2, 2), "yuv422p": (8, 2, 1), "yuv444p": (8, 1, 1), "yuv422p10le": (10, 2, 1),
       "yuv420p10le": (10, 2, 2), "yuv444p12le": (12, 1, 1), "yuva444p10le": (10, 1, 1), "yuv444p16le": (16, 1, 1), "yuv422p12be": (12, 2, 1)}
SAMPLES = {"s16": 16, "s32": 32, "flt": 32, "dbl": 64, "fltp": 32, "s16p": 16, "u8": 8, "u8p": 8, "s64": 64, "s32p": 32, "dblp": 64}


def vstream(rng, k):
    pick = lambda d: list(d)[k % len(d)] if rng.random() < 0.6 else rng.choice(list(d))     # all of them, soon
    return dict(codec_type="video", codec_name=rng.choice(["h264", "h264", "h264", "h264", "prores", "mjpeg", "dnxhd", "hevc"]), avg_frame_rate="%d/%d" % rng.choice(RATES),
                nb_frames=str(rng.choice([1, 100, rng.randint(1, 10 ** 6)])), pix_fmt=pick(PIX), width=rng.choice([1920, 64, 4096]),
                height=rng.choice([1080, 36, 2160]), profile=pick(PROFILES))


def astream(rng):
    return dict(codec_type="audio", codec_name="pcm", sample_rate=str(rng.choice([48000, 44100, 96000])), duration_ts=rng.randint(1, 10 ** 7),
                channels=rng.choice([1, 2, 2, 6]), bit_rate=str(rng.randint(10000, 5000000)), sample_fmt=rng.choice(list(SAMPLES)))


def case_other(ctx, i):
    rng = ctx.rng
    out = vfs.new("link-%d.aaf" % i)
    f = aaf2.open(out, "w")
    base = rng.choice(["clip", "two words", "ünï", "a%20b", "semi;colon", "hash#tag", "q?x", "dots.in.name"])
    todo = []
    for k in range(rng.choice([1, 2])):
        kind = rng.choice(["wav", "aiff", "mov", "mov"])
        name = "%s%d" % (base, k)
        if kind == "wav":
            m = wav(rng)
            path = vfs.put("media/%s.%s" % (name, rng.choice(["wav", "WAV", "bwf"])), m.file)
            pos = m.file.index(b"fmt ") if m.file.count(b"fmt ") == 1 and b"fmtx" not in m.file else None
            if pos is None:
                continue
            n = struct.unpack_from("<I", m.file, pos + 4)[0]
            summary = m.file[:12] + m.file[pos:pos + 8 + n]
            streams = [dict(codec_type="audio", codec_name="pcm_s16le", sample_rate=str(m.rate), duration_ts=m.frames, channels=m.channels,
                            bit_rate="1", sample_fmt="s16")]
            fmt = dict(format_name="wav", format_long_name="WAV / WAVE (Waveform Audio)", filename=path)
            ctx.note("wav_aiff")
        elif kind == "aiff":
            data, summary, ch, rate, frames = aiff(rng)
            path = vfs.put("media/%s.aiff" % name, data)
            streams = [dict(codec_type="audio", codec_name="pcm_s16be", sample_rate=str(rate), duration_ts=frames, channels=ch, bit_rate="1", sample_fmt="s16")]
            fmt = dict(format_name="aiff", format_long_name="Audio IFF", filename=path)
            ctx.note("wav_aiff")
        else:
            path = vfs.new("media/%s.mov" % name)
            summary = None
            streams = [vstream(rng, i // 3 + k) for _ in range(rng.choice([0, 1, 1, 1, 2]))] + [astream(rng) for _ in range(rng.choice([0, 1, 1, 2, 4]))]
            if not streams:
                streams = [astream(rng)]
            if rng.random() < 0.5:
                streams += [dict(codec_type=rng.choice(["data", "subtitle"]), codec_name="tmcd")]
            if rng.random() < 0.6:
                rng.shuffle(streams)
            fmt = dict(format_name="mov,mp4,m4a,3gp,3g2,mj2", format_long_name="QuickTime / MOV", filename=path)
            ctx.note("probe")
        meta = dict(format=fmt, streams=[dict(s, index=j) for j, s in enumerate(streams)])
        n0 = len(f.content.mobs)
        r = rng.random()
        given = path if rng.random() < 0.7 else os.path.relpath(path)
        if r < 0.3:
            meta["format"]["filename"] = given
            got = f.content.link_external_wav(meta)
        elif r < 0.6:
            got = f.content.create_ama_link(given, meta)
        else:
            got = ama.create_media_link(f, given, meta)
        ctx.eq(len(got), 3, "link", "mobs returned")
        ctx.eq(len(f.content.mobs), n0 + 3, "link", "mobs in the file")
        ctx.distinct((kind, [s["codec_type"] for s in streams], base))
        todo.append((kind, path, name, streams, summary, [m.mob_id for m in got]))
        judge_other(ctx, f, todo[-1], "in session")
    if rng.random() < 0.3:
        n0 = len(f.content.mobs)
        meta = dict(format=dict(format_name="ogg", format_long_name="Ogg", filename="/x.ogg"), streams=[dict(astream(rng), index=0)])
        ctx.eq(ama.create_media_link(f, "/x.ogg", meta), None, "unknown-format", "link of an unknown format")
        ctx.eq(len(f.content.mobs), n0, "unknown-format", "mobs")
        ctx.note("refused")
    f.close()
    for mode in ("r", "r+", "r"):
        f = aaf2.open(out, mode)
        for t in todo:
            judge_other(ctx, f, t, "reopened " + mode)
        f.close()


def judge_url(ctx, d, path, what):
    urls = [x["URLString"].value for x in d["Locator"].value]
    ok = any(urllib.request.url2pathname(urllib.parse.urlparse(u).path) == path and urllib.parse.urlparse(u).scheme == "file"
             and not urllib.parse.urlparse(u).query and not urllib.parse.urlparse(u).fragment for u in urls)
    ctx.check(ok, "locator", lambda: "%s: locators %s do not lead to %s" % (what, urls, path))


def judge_other(ctx, f, t, when):
    kind, path, name, streams, summary, ids = t
    master, src, tape = [f.content.mobs.get(x) for x in ids]
    what = "%s: %s" % (when, kind)
    ctx.eq([type(x).__name__ for x in (master, src, tape)], ["MasterMob", "SourceMob", "SourceMob"], "link", what)
    ctx.eq(master.name, name, "link-name", what)
    # one slot per picture stream and per sound channel
    want = []
    for s in streams:
        if s["codec_type"] == "video":
            want.append(("Picture", Fraction(s["avg_frame_rate"]), int(s["nb_frames"])))
    for s in streams:
        if s["codec_type"] == "audio":
            want += [("Sound", Fraction(s["sample_rate"]), s["duration_ts"])] * s["channels"]
    below = {master.mob_id: src, src.mob_id: tape, tape.mob_id: None}
    for mob in (master, src, tape):
        slots = list(mob.slots)
        got = [(s.media_kind, Fraction(s.edit_rate.numerator, s.edit_rate.denominator), s.segment.components[0].length) for s in slots]
        ctx.check(sorted(got) == sorted(want), "link-slots", lambda: "%s: slots %s, expected %s" % (what, got, want))
        for s in slots:
            seg = s.segment
            c = seg.components[0]
            ctx.eq((len(seg.components), seg.length, s.length), (1, c.length, c.length), "link-length", "%s: sequence" % what)
            nxt = below[mob.mob_id]
            if nxt is not None:
                ctx.eq((c.mob_id, c.start), (nxt.mob_id, 0), "link-clip", what)
                to = nxt.slot_at(c.slot_id)
                ctx.eq((to.media_kind, to.edit_rate, to.length), (s.media_kind, s.edit_rate, c.length), "link-clip", what)
            else:
                ctx.check(c.mob is None, "link-clip", what)
        if mob is not tape:
            nums = [s["PhysicalTrackNumber"].value for s in slots if s.media_kind == "Sound"]
            ctx.eq(sorted(nums), list(range(1, len(nums) + 1)), "link-tracks", what)
            ctx.eq(len(set(s.segment.components[0].slot_id for s in slots)), len(slots), "link-clip", "clips of different slots")
    ctx.eq(tape.descriptor.classdef.class_name, "ImportDescriptor", "link-tape", what)
    d = src.descriptor
    vids = [s for s in streams if s["codec_type"] == "video"]
    auds = [s for s in streams if s["codec_type"] == "audio"]
    ctx.note("descriptors")
    if summary is not None:
        ctx.eq(type(d).__name__, "WAVEDescriptor" if kind == "wav" else "AIFCDescriptor", "descriptor", what)
        ctx.check(bytes(bytearray(d["Summary"].value)) == summary, "summary", lambda: "%s: summary %s, expected %s" % (
            what, bytes(bytearray(d["Summary"].value)).hex(), summary.hex()))
        ctx.eq((d.length, Fraction(str(d["SampleRate"].value))), (auds[0]["duration_ts"], Fraction(auds[0]["sample_rate"])), "descriptor", what)
        ctx.eq(d["ContainerFormat"].value.name, "ContainerDef_AAF", "descriptor", what)
        judge_url(ctx, d, path, what)
        return
    if vids:
        ctx.eq(src.comments["Video"], vids[0]["codec_name"], "comment", what)
    parts = [d]
    if len(vids) + len(auds) > 1:
        ctx.eq(type(d).__name__, "MultipleDescriptor", "descriptor", what)
        lead = (vids or auds)[0]
        ctx.eq(d.length, int(lead["nb_frames"] if vids else lead["duration_ts"]), "descriptor", what)
        ctx.eq(Fraction(str(d["SampleRate"].value)), Fraction(lead["avg_frame_rate"] if vids else lead["sample_rate"]), "descriptor", what)
        judge_url(ctx, d, path, what)
        parts = list(d["FileDescriptors"].value)
    order = [s for s in streams if s["codec_type"] in ("audio", "video")]
    ctx.eq(len(parts), len(order), "descriptor", what + ": descriptors")
    for p, s in zip(parts, order):
        ctx.note("descriptors")
        judge_url(ctx, p, path, what)
        g = p.getvalue
        if s["codec_type"] == "audio":
            ctx.eq(type(p).__name__, "PCMDescriptor", "descriptor", what)
            ctx.eq((g("Channels"), Fraction(str(g("SampleRate"))), Fraction(str(g("AudioSamplingRate"))), g("Length"), g("QuantizationBits")),
                   (s["channels"], Fraction(s["sample_rate"]), Fraction(s["sample_rate"]), s["duration_ts"], SAMPLES[s["sample_fmt"]]),
                   "descriptor-audio", what)
        else:
            ctx.eq(type(p).__name__, "CDCIDescriptor", "descriptor", what)
            ctx.eq((g("StoredWidth"), g("StoredHeight"), Fraction(str(g("SampleRate"))), g("Length"), Fraction(str(g("ImageAspectRatio")))),
                   (s["width"], s["height"], Fraction(s["avg_frame_rate"]), int(s["nb_frames"]), Fraction(s["width"], s["height"])), "descriptor-video", what)
            ctx.eq((g("ComponentWidth"), g("HorizontalSubsampling"), g("VerticalSubsampling")), PIX[s["pix_fmt"]], "descriptor-video", what)
            comp = PROFILES[s["profile"]] if s["codec_name"] == "h264" else "0e040201-0205-0100-060e-2b3404010101" if s["codec_name"] == "mjpeg" else PROFILES[None]
            ctx.eq(str(g("Compression")), comp, "descriptor-video", what)


def case(ctx, i):
    (case_mxf if i % 3 else case_other)(ctx, i)
    ctx.sample(["%s=%d" % kv for kv in sorted(ctx.counters.items())])
    vfs.clear()
