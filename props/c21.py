"""Imported essence comes back byte for byte, described as the media is."""
import io
import struct
from fractions import Fraction

import aaf2
from aaf2 import video
from aaf2.rational import AAFRational
from props.c18 import closest
from vlib import aafref, cfbref, vfs

ID = "C21"
PLAN = {
    "quick": 320, "thorough": 4000,
    "rule": "WAV files (16/24 bit, 1 to 24 channels, plain, padded and extensible format chunks, odd chunks before and after "
            "the samples, lengths around multiples of one second), DNxHD and DNxHR streams built from the published header and "
            "frame size tables, and raw video of every pixel layout are synthesised, imported with and without tape, edit rate, "
            "length and offline, several per file and mixed with edits and deletions of other mobs; every stored byte, every "
            "descriptor field and every clip is compared with the synthesis parameters in session, in the parsed image and after "
            "reopening twice; exported audio is parsed by an independent reader; distinct by (media, format, options)",
    "require": {"wav": 250, "dnx": 150, "raw": 100, "exports": 200, "bytes_compared": 50000000, "image_streams": 300,
                "descriptions": 1500, "refused": 40},
    "assumptions": ["media is well formed and holds whole frames", "interlaced pictures: the stored field height is compared, "
                    "not the aspect ratio", "only 4:2:2 DNx, as the library documents"],
}
CASE_CPU = 200

# VC-3 frame sizes in bytes
HD = {1235: 917504, 1237: 606208, 1238: 917504, 1241: 917504, 1242: 606208, 1243: 917504, 1244: 606208, 1250: 458752,
      1251: 458752, 1252: 303104, 1253: 188416, 1258: 212992, 1259: 417792, 1260: 835584}
HR = {1271: 28672, 1272: 28672, 1273: 18944, 1274: 5888}
# label of each compression id
LABEL = {1235: "7101", 1237: "7103", 1238: "7104", 1241: "7107", 1242: "7108", 1243: "7109", 1244: "710a", 1250: "7110",
         1251: "7111", 1252: "7112", 1253: "7113", 1258: "7118", 1259: "7119", 1260: "711a", 1271: "7125", 1272: "7126",
         1273: "7127", 1274: "7128"}
RATES = ["25", "24000/1001", "30000/1001", 24, 30, 25, Fraction(60000, 1001), AAFRational(50), 23.976, "29.97", 48000]


def rate_of(x):
    """the fraction a file stores for an edit rate"""
    if isinstance(x, float):
        return min(closest(Fraction(x)))
    return Fraction(str(x)) if not isinstance(x, Fraction) else Fraction(x.numerator, x.denominator)


def frac(v):
    return Fraction(v.numerator, v.denominator)


class Media(object):
    pass


# ---- synthesis ------------------------------------------------------------------------------------------------------

def riff(chunks):
    body = b"WAVE"
    for cid, data in chunks:
        body += cid + struct.pack("<I", len(data)) + data + (b"\0" if len(data) & 1 else b"")
    return b"RIFF" + struct.pack("<I", len(body)) + body


def wav(rng):
    m = Media()
    m.kind = "wav"
    m.width = rng.choice([2, 3])
    m.channels = rng.choice([1, 1, 2, 2, 3, 6, 8, 24])
    m.rate = rng.choice([48000, 44100, 8000, 8000, 96000, 32000, 47952, 100, 1, 11025])
    top = 200000 // (m.channels * m.width)
    n = rng.choice([0, 1, 2, m.rate - 1, m.rate, m.rate + 1, 2 * m.rate, m.rate * 1001 // 1000, m.rate * 1001 * 2 // 1000,
                    rng.randint(0, 3 * m.rate), rng.randint(0, top)])
    m.frames = min(n, top)
    m.data = rng.randbytes(m.frames * m.channels * m.width)
    align = m.channels * m.width
    m.align = align
    form = rng.choice(["plain", "plain", "cb", "ext"])
    fmt = struct.pack("<HHIIHH", 0xFFFE if form == "ext" else 1, m.channels, m.rate, m.rate * align, align, m.width * 8)
    if form == "cb":
        fmt += struct.pack("<H", 0)
    elif form == "ext":
        fmt += struct.pack("<HHI", 22, m.width * 8, rng.choice([0, 3, 4])) + bytes.fromhex("0100000000001000800000aa00389b71")
    m.form = form

    def extra():
        return (rng.choice([b"bext", b"JUNK", b"LIST", b"cue ", b"iXML", b"fact", b"fmtx", b"dat "]),
                rng.randbytes(rng.choice([0, 1, 2, 3, 7, 28, 602, rng.randint(0, 3000)])))
    pre = [extra() for _ in range(rng.choice([0, 0, 1, 2]))]
    mid = [extra() for _ in range(rng.choice([0, 0, 1, 2]))]
    post = [extra() for _ in range(rng.choice([0, 0, 1, 2]))]
    m.file = riff(pre + [(b"fmt ", fmt)] + mid + [(b"data", m.data)] + post)
    m.stored = m.data
    m.length = m.frames
    m.key = (form, m.width, m.channels, bool(pre), bool(mid), bool(post), m.frames % m.rate == 0, len(m.data) & 1)
    return m


def hr_size(cid, w, h):
    mbs = -(-w // 16) * -(-h // 16)
    return max((mbs * HR[cid] // 255 + 2048) // 4096 * 4096, 8192)


def dnx(rng):
    m = Media()
    m.kind = "dnx"
    if rng.random() < 0.25:
        m.cid = rng.choice(list(HD))
        m.w, m.h = rng.choice([(1920, 1080), (1280, 720), (1440, 1080), (1440, 540), (1920, 540), (960, 720)])
        size = HD[m.cid]
        off = 0x280
        n = rng.choice([1, 1, 2])
    else:
        m.cid = rng.choice(list(HR))
        m.w, m.h = rng.choice([(64, 64), (256, 120), (257, 121), (1920, 1080), (16, 4000), (2048, 858), (rng.randint(16, 600), rng.randint(16, 600))])
        size = hr_size(m.cid, m.w, m.h)
        off = rng.choice([0x280, 0x284, 0x2170, rng.randrange(0x280, 0x2171, 4)])
        n = max(1, min(rng.choice([1, 2, 3, 10, 30]), 1500000 // size))
    m.depth = rng.choice([8, 10, 12])
    m.inter = rng.random() < 0.3
    m.size = size
    frames = []
    for _ in range(n):
        h = bytearray(rng.randbytes(640))
        h[0:5] = struct.pack(">I", off) + (b"\x01" if m.cid in HD else b"\x03")
        h[5] = (h[5] & ~2) | (2 if m.inter else 0)
        struct.pack_into(">HH", h, 0x18, m.h, m.w)
        h[0x21] = (h[0x21] & 0x1f) | {8: 1, 10: 2, 12: 3}[m.depth] << 5
        struct.pack_into(">I", h, 0x28, m.cid)
        h[0x2c] &= ~0x40
        frames.append(bytes(h) + rng.randbytes(size - 640))
    m.frames = frames
    m.stored = m.data = b"".join(frames)
    m.file = m.data + (rng.randbytes(rng.randint(1, 639)) if rng.random() < 0.1 else b"")
    m.length = n
    m.key = (m.cid, m.inter, m.depth, off == 0x280, n if n < 4 else 4, len(m.file) > len(m.data))
    return m


CODES = ["CompAlpha", "CompBlue", "CompGreen", "CompRed", "CompFill", "CompLuma", "CompDepth", "CompPalette"]


def raw(rng):
    m = Media()
    m.kind = "raw"
    m.w, m.h = rng.choice([(1, 1), (64, 64), (128, 64), (127, 33), (rng.randint(1, 200), rng.randint(1, 150))])
    m.layout = [{"Code": c, "Size": rng.choice([8, 8, 8, 10, 1, 16, 5])} for c in rng.sample(CODES, rng.choice([1, 3, 4, 8]))]
    bits = sum(c["Size"] for c in m.layout) * m.w * m.h
    size = (bits + 7) // 8
    n = min(rng.choice([0, 1, 2, 5, 12]), max(1, 1500000 // size))
    m.frames = [rng.randbytes(size) for _ in range(n)]
    m.file = b"".join(m.frames)
    pad = -size % 8192
    m.size = size + pad
    m.stored = b"".join(f + bytes(pad) for f in m.frames)
    m.length = n
    m.key = (len(m.layout), bits % 8, pad == 0, n)
    return m


def bad_dnx(ctx):
    """damaged headers are refused, not guessed"""
    rng = ctx.rng
    m = dnx(rng)
    h = bytearray(m.frames[0])
    how = rng.choice(["prefix", "depth", "cid", "offset"])
    if how == "prefix":
        h[rng.randrange(0, 5)] ^= 0x81
    elif how == "offset":
        h[0:5] = struct.pack(">I", rng.choice([0x27c, 0x281, 0x2174, 0x282])) + b"\x03"
    elif how == "depth":
        h[0x21] = (h[0x21] & 0x1f) | rng.choice([0, 4, 5, 6, 7]) << 5
    else:
        struct.pack_into(">I", h, 0x28, rng.choice([0, 1, 1234, 1269, 1275, 99999]))
    ctx.raises((ValueError, KeyError), "dnx-refusal", lambda: list(video.iter_dnx_stream(io.BytesIO(bytes(h)))))
    ctx.note("refused")


# ---- import and judgement ---------------------------------------------------------------------------------------------

class Imported(object):
    pass


def bring_in(ctx, f, n):
    rng = ctx.rng
    m = rng.choice([wav, wav, dnx, raw])(rng)
    ctx.note(m.kind)
    path = vfs.put("media-%d" % n, m.file)
    r = Imported()
    r.media = m
    r.rate = rng.choice(RATES)
    if m.kind == "wav" and rng.random() < 0.5:
        r.rate = None
    r.given = rng.choice([None, None, None, 1, 5, 10 ** 6]) if m.kind != "raw" else None
    r.offline = m.kind != "raw" and rng.random() < 0.15
    r.tape = None
    tape = None
    kind = "sound" if m.kind == "wav" else "picture"
    if rng.random() < 0.4:
        tmob = f.create.SourceMob()
        fps = rng.choice([24, 25, 30])
        tmob.create_tape_slots("tape %d" % n, rng.choice(["25", "24000/1001", 30]), fps, rng.random() < 0.3, kind)
        f.content.mobs.append(tmob)
        start = rng.choice([0, 10, 90000])
        tape = tmob.create_source_clip(1, start, media_kind=kind)
        r.tape = (tmob.mob_id, start)
    over_master = m.kind != "raw" and rng.random() < 0.7
    args = dict(tape=tape)
    if m.kind != "raw":
        args.update(length=r.given, offline=r.offline)
    if over_master:
        mob = f.create.MasterMob("clip %d" % n)
        f.content.mobs.append(mob)
        before = set(x.mob_id for x in f.content.mobs)
    else:
        mob = f.create.SourceMob("file %d" % n)
        f.content.mobs.append(mob)
    if m.kind == "wav":
        slot = mob.import_audio_essence(path, r.rate, **args)
    elif m.kind == "dnx":
        slot = mob.import_dnxhd_essence(path, r.rate, **args)
    else:
        slot = mob.import_rawvideo_essence(path, r.rate, m.w, m.h, m.layout, tape)
    r.master = None
    if over_master:
        new = set(x.mob_id for x in f.content.mobs) - before
        ctx.eq(len(new), 1, "mobs", "source mobs made by an import")
        r.master = mob.mob_id
        r.source = new.pop()
        ctx.check(slot in list(mob.slots), "slot", "returned slot is not one of the mob")
        ctx.eq(mob.slots[-1].segment.mob_id, r.source, "clip", "clip of the master mob")
    else:
        r.source = mob.mob_id
        ctx.eq(slot.slot_id, 1, "slot", "slot of the file mob")
    want = Fraction(m.rate) if r.rate is None else rate_of(r.rate)
    r.edit_rate = want
    if r.given:
        r.cliplen = r.given
    elif m.kind == "wav":
        r.cliplen = m.frames * want.numerator // (m.rate * want.denominator)
    else:
        r.cliplen = m.length
    ctx.distinct((m.kind, m.key, r.rate is None, bool(r.given), r.offline, tape is None, over_master))
    return r


def judge(ctx, f, r, when, export=True):
    m = r.media
    content = f.content
    src = content.mobs.get(r.source, None)
    ctx.check(src is not None, "mob", lambda: "%s: file mob is gone" % when)
    what = lambda: "%s: %s %s" % (when, m.kind, m.key)
    slot = src.slot_at(1)
    ctx.eq(len(src.slots), 1, "slot", "slots of the file mob")
    ctx.eq(frac(slot.edit_rate), r.edit_rate, "edit-rate", "edit rate")
    seg = slot.segment
    ctx.eq(type(seg).__name__, "SourceClip", "clip", "segment of the file mob")
    ctx.eq(seg.length, r.cliplen, "clip-length", "%s: clip length" % what())
    ctx.eq(seg.media_kind, "Sound" if m.kind == "wav" else "Picture", "clip", "media kind")
    if r.tape:
        ctx.eq((seg.mob_id, seg.slot_id, seg.start), (r.tape[0], 1, r.tape[1]), "tape", "tape clip")
        ctx.eq(seg.mob.mob_id, r.tape[0], "tape", "tape mob")
        ctx.eq(type(seg.mob.descriptor).__name__, "TapeDescriptor", "tape", "descriptor")
    else:
        ctx.check(seg.mob is None, "clip", lambda: what() + ": file mob leads to another mob")
    if r.master:
        mm = content.mobs.get(r.master)
        s = mm.slots[0]
        c = s.segment
        ctx.eq((c.mob_id, c.slot_id, c.start, c.length, c.media_kind), (r.source, 1, 0, r.cliplen, seg.media_kind), "clip", "clip of the master mob")
        ctx.eq(frac(s.edit_rate), r.edit_rate, "edit-rate", "edit rate of the master slot")
        ctx.check(c.mob is src or c.mob.mob_id == r.source, "clip", "clip leads elsewhere")
    # description
    d = src.descriptor
    ctx.note("descriptions")
    g = lambda n: d.getvalue(n)
    ctx.eq(d.length, m.length, "desc-length", "%s: descriptor length" % what())
    if m.kind == "wav":
        ctx.eq(type(d).__name__, "PCMDescriptor", "desc", "descriptor")
        got = dict((n, g(n)) for n in ("Channels", "BlockAlign", "AverageBPS", "QuantizationBits"))
        ctx.eq(got, dict(Channels=m.channels, BlockAlign=m.align, AverageBPS=m.rate * m.align, QuantizationBits=m.width * 8),
               "desc-audio", what())
        ctx.eq((frac(g("SampleRate")), frac(g("AudioSamplingRate"))), (m.rate, m.rate), "desc-audio", "sample rates")
    else:
        got = (g("StoredWidth"), g("StoredHeight"), g("FrameSampleSize"), frac(g("SampleRate")))
        ctx.eq(got, (m.w, m.h, m.size if m.kind == "raw" else len(m.frames[0]), r.edit_rate), "desc-video", what())
        if not (m.kind == "dnx" and m.inter):
            ctx.eq(frac(g("ImageAspectRatio")), Fraction(m.w, m.h), "desc-video", "aspect ratio")
        ctx.eq(g("ContainerFormat").name, "ContainerDef_AAF", "desc-video", "container")
        if m.kind == "dnx":
            ctx.eq(type(d).__name__, "CDCIDescriptor", "desc", "descriptor")
            ctx.eq((g("ComponentWidth"), g("HorizontalSubsampling"), g("FrameLayout")),
                   (m.depth, 2, "SeparateFields" if m.inter else "FullFrame"), "desc-video", what())
            tail = "010a" if m.cid in HD else "010d"
            ctx.eq(str(g("Compression")), "04010202-%s-0000-060e-2b340401%s" % (LABEL[m.cid], tail), "desc-video", "compression")
            ctx.eq(str(g("CodecDefinition").auid), "8ef593f6-9521-4344-9ede-b84e8cfdc7da", "desc-video", "codec")
        else:
            ctx.eq(type(d).__name__, "RGBADescriptor", "desc", "descriptor")
            lay = [dict(c) for c in g("PixelLayout")]
            want = m.layout + [{"Code": lay[-1]["Code"], "Size": 0}] * (8 - len(m.layout)) if len(lay) == 8 and len(m.layout) < 8 else m.layout
            ctx.eq(lay, want, "desc-video", "pixel layout")
            ctx.eq((g("ImageSize"), g("ImageAlignmentFactor"), g("FrameLayout")), (m.size * m.length, 8192, "FullFrame"), "desc-video", what())
    # essence
    ess = [e for e in content.essencedata if e.mob_id == r.source]
    if r.offline:
        ctx.eq((ess, src.essence), ([], None), "offline", "essence of an offline import")
        return
    ctx.eq(len(ess), 1, "essence", "essence objects of the mob")
    e = src.essence
    ctx.check(e is not None and e.mob_id == r.source and e.mob.mob_id == r.source, "essence", "essence and mob find each other")
    s = e.open("r")
    if ctx.rng.random() < 0.5:
        got = s.read()
    else:
        parts = []
        while True:
            p = s.read(ctx.rng.choice([1 << 16, 1000, 100000]))
            if not p:
                break
            parts.append(p)
        got = b"".join(parts)
    ctx.note("bytes_compared", len(got))
    ctx.check(bytes(got) == m.stored, "essence-bytes", lambda: "%s: %d bytes stored, %d expected%s" % (
        what(), len(got), len(m.stored), "" if len(got) != len(m.stored) else ", contents differ"))
    if m.kind == "dnx":
        fr = list(video.iter_dnx_stream(io.BytesIO(bytes(got))))
        ctx.check(fr == m.frames, "dnx-frames", lambda: "%s: frames come apart differently" % what())
    if m.kind == "wav" and export:
        out = vfs.new("out.wav")
        src.export_audio(out)
        tf = vfs.get(out)
        judge_wav(ctx, m, bytes(tf.at(0, tf.size)), what())
        ctx.note("exports")


def judge_wav(ctx, m, b, what):
    """independent reader of a WAV file"""
    ctx.check(b[:4] == b"RIFF" and b[8:12] == b"WAVE" and struct.unpack_from("<I", b, 4)[0] in (len(b) - 8, len(b) - 7),
              "export", lambda: what + ": not a WAV file or wrong size")
    off, seen = 12, {}
    while off + 8 <= len(b):
        n = struct.unpack_from("<I", b, off + 4)[0]
        seen[b[off:off + 4]] = b[off + 8:off + 8 + n]
        off += 8 + n + (n & 1)
    ctx.eq(struct.unpack_from("<HHIIHH", seen[b"fmt "]), (1, m.channels, m.rate, m.rate * m.align, m.align, m.width * 8),
           "export", what + ": exported format")
    ctx.check(seen[b"data"] == m.data, "export-samples", lambda: "%s: exported %d bytes of samples, %d expected" % (
        what, len(seen[b"data"]), len(m.data)))


def judge_image(ctx, path, live, dropped):
    tf = vfs.get(path)
    img = cfbref.parse(tf)
    A = aafref.parse(img)
    streams = {}
    for o in A.objs.values():
        if o.clsid == "0d010101-0101-2300-060e-2b3402060101":
            mid = bytes(o.props[0x2701].data)
            streams[mid] = o.props[0x2702].stream
    want = set(bytes(r.source.bytes_le) for r in live if not r.offline)
    ctx.check(want <= set(streams), "image", "essence missing in the image")
    for r in live:
        if not r.offline:
            s = streams[bytes(r.source.bytes_le)]
            data = s.data if hasattr(s, "data") else s
            ctx.check(bytes(data) == r.media.stored, "image-bytes", lambda: "%s: stored bytes differ in the image" % r.media.kind)
            ctx.note("image_streams")


def disturb(ctx, f, live):
    """edits that must not touch the essence"""
    rng = ctx.rng
    for _ in range(rng.choice([0, 1, 3])):
        k = rng.random()
        if k < 0.3 and len(live) > 1:
            r = live.pop(rng.randrange(len(live)))
            for e in list(f.content.essencedata):
                if e.mob_id == r.source:
                    f.content.essencedata.pop(e.mob_id)
            f.content.mobs.pop(r.source)
            if r.master:
                f.content.mobs.pop(r.master)
        elif k < 0.6:
            e = f.create.EssenceData()
            m = f.create.SourceMob("other")
            m.create_empty_slot(25, "picture").segment.length = 1
            m.descriptor = f.create.TapeDescriptor()
            f.content.mobs.append(m)
            e.mob_id = m.mob_id
            f.content.essencedata.append(e)
            e.open("w").write(rng.randbytes(rng.choice([0, 10, 5000, 100000])))
        else:
            r = rng.choice(live)
            f.content.mobs.get(r.source).comments["note"] = "x" * rng.randint(0, 5000)


def case(ctx, i):
    rng = ctx.rng
    path = vfs.new("essence-%d.aaf" % i)
    f = aaf2.open(path, "w", sector_size=rng.choice([4096, 512]))
    live = []
    n = 0
    for _ in range(rng.choice([1, 2, 3])):
        live.append(bring_in(ctx, f, n))
        n += 1
        if rng.random() < 0.4:
            disturb(ctx, f, live)
        if rng.random() < 0.5:
            judge(ctx, f, rng.choice(live), "in session")
    for r in live:
        judge(ctx, f, r, "before closing", False)
    f.close()
    judge_image(ctx, path, live, None)
    f = aaf2.open(path, "r")
    for r in live:
        judge(ctx, f, r, "reopened")
    f.close()
    if rng.random() < 0.6:
        f = aaf2.open(path, "r+")
        disturb(ctx, f, live)
        if rng.random() < 0.5:
            live.append(bring_in(ctx, f, n))
        for r in live:
            judge(ctx, f, r, "edited", False)
        f.close()
        judge_image(ctx, path, live, None)
        f = aaf2.open(path, "r")
        for r in live:
            judge(ctx, f, r, "reopened after edits")
        f.close()
    bad_dnx(ctx)
    ctx.sample([r.media.kind for r in live])
    vfs.clear()
