"""Damaged files: opening and reading everything ends, with an ordinary exception at worst, in bounded memory, without writing."""
import contextlib
import os
import resource
import signal
import struct
import sys
import time

import aaf2
from aaf2 import cfb as cfbmod

from vlib import cfbref, vfs
from vlib.aafworld import AWorld, DATA, STRONG, SVEC, SSET, WEAK, WVEC, WSET, STREAM
from vlib.foreign import foreign
from vlib.harness import Violation, CaseTimeout
from props.c07 import SAMPLES

ID = "C08"
CASE_CPU = 400
LIMIT_CPU = 20          # for one damaged file; reading an intact one takes well below two seconds
LIMIT_MEM = 400 << 20   # on top of what the process uses already; the files are below 3 MB
PLAN = {
    "quick": 300, "thorough": 6000,
    "rule": "intact files (random object graphs with both sector sizes, compound files of random layout and version, sample "
            "files) damaged in 1-3 places: header fields, allocation, mini allocation and index tables (cycles, cross links, "
            "out of range), directory entries (links to itself, ancestors, others; start, size, type, name length, class), "
            "property and index streams (counts, sizes, formats, ids), reference table, random bytes, blocks, truncation; each is "
            "opened and read completely through the storage or the object interface; monitors: CPU limit, address space limit, "
            "exception class, writes; distinct by (kind, field, value class, outcome)",
    "require": {"damaged_files": 1000, "read_to_the_end": 300, "refused_files": 200, "errors_while_reading": 200,
                "damaged_fields": 40},
    "assumptions": ["limits: 20 CPU seconds and 400 MB more than before per damaged file of at most 3 MB",
                    "a RecursionError counts as an ordinary exception"],
}
ODD = [0, 1, 2, 3, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFA, 0xFFFFFFFB, 0xFFFFFFFC, 0xFFFFFFFD, 0xFFFFFFFE, 0xFFFFFFFF]


class Layout(object):
    """where things are in an intact file"""

    def __init__(self, data):
        self.im = cfbref.parse(cfbref.BytesReader(data))
        self.ss = ss = self.im.sector_size
        self.nsect = len(data) // ss - 1
        self.data = data
        (ndir, nfat, self.dirstart, txn, cutoff, self.mfstart, self.nmf, self.dfstart, self.ndf) = \
            struct.unpack_from("<IIIIIIIII", data, 40)
        fats = [x for x in struct.unpack_from("<109I", data, 76) if x < 0xFFFFFFFA]
        sid = self.dfstart
        self.difat = []
        for _ in range(self.ndf):
            self.difat.append(sid)
            t = struct.unpack_from("<%dI" % (ss // 4), data, (sid + 1) * ss)
            fats += [x for x in t[:-1] if x < 0xFFFFFFFA]
            sid = t[-1]
        self.fats = fats
        self.fat = []
        for s in fats:
            self.fat += struct.unpack_from("<%dI" % (ss // 4), data, (s + 1) * ss)
        self.dirchain = self.chain(self.dirstart)
        self.mfchain = self.chain(self.mfstart) if self.nmf else []
        self.minichain = self.chain(self.im.root.start) if self.im.root.start < 0xFFFFFFFA else []
        self.entries = []
        for k, s in enumerate(self.dirchain):
            for j in range(ss // 128):
                off = (s + 1) * ss + j * 128
                if data[off + 66] in (1, 2, 5):
                    self.entries.append(off)
        self.nids = len(self.dirchain) * (ss // 128)
        self.streams = []

        def rec(n, path):
            for c in n.children:
                if c.type == 2:
                    self.streams.append((path + "/" + c.name, c))
                else:
                    rec(c, path + "/" + c.name)
        rec(self.im.root, "")

    def chain(self, sid):
        out = []
        while sid < 0xFFFFFFFA:
            out.append(sid)
            sid = self.fat[sid]
        return out

    def fatpos(self, i):
        n = self.ss // 4
        return (self.fats[i // n] + 1) * self.ss + (i % n) * 4

    def minifatpos(self, i):
        n = self.ss // 4
        return (self.mfchain[i // n] + 1) * self.ss + (i % n) * 4

    def streampos(self, node, off):
        """file offset of a byte of a stream"""
        if node.size < 4096:
            per = self.ss // 64
            m = node.start
            for _ in range(off // 64):
                m = struct.unpack_from("<I", self.data, self.minifatpos(m))[0]
            return (self.minichain[m // per] + 1) * self.ss + (m % per) * 64 + off % 64
        return (self.chain(node.start)[off // self.ss] + 1) * self.ss + off % self.ss


def damage(rng, lay, buf):
    """one change; returns (kind, field)"""
    ss = lay.ss

    def put32(off, v):
        struct.pack_into("<I", buf, off, v & 0xFFFFFFFF)

    def sidval():
        return rng.choice([rng.choice(ODD), rng.randrange(lay.nsect + 1), rng.randrange(lay.nsect + 1), lay.nsect, lay.nsect + 1,
                           lay.dirstart, lay.mfstart, lay.fats[0]])
    k = rng.choice(["header", "header", "fat", "fat", "minifat", "difat", "entry", "entry", "entry", "entry", "prop", "prop",
                    "prop", "index", "reftable", "bytes", "block", "truncate", "data"])
    if k == "header":
        name, off, size = rng.choice([("magic", 0, 4), ("major", 26, 2), ("order", 28, 2), ("shift", 30, 2), ("minishift", 32, 2),
                                      ("dirs", 40, 4), ("fats", 44, 4), ("dirstart", 48, 4), ("cutoff", 56, 4),
                                      ("mfstart", 60, 4), ("nminifat", 64, 4), ("dfstart", 68, 4), ("ndifat", 72, 4),
                                      ("difat", 76 + 4 * rng.randrange(109), 4), ("difat0", 76, 4)])
        if size == 2:
            struct.pack_into("<H", buf, off, rng.choice([0, 1, 6, 9, 12, 16, 31, 32, 255, 65535]))
        else:
            put32(off, sidval())
        if name == "ndifat" and rng.random() < 0.7:
            # an index table that refers to itself
            s = rng.randrange(lay.nsect)
            put32(68, s)
            put32((s + 2) * ss - 4, s)
            name = "difat cycle"
        return k, name
    if k == "fat":
        used = [i for i, v in enumerate(lay.fat) if v != 0xFFFFFFFF]
        i = rng.choice(used)
        put32(lay.fatpos(i), rng.choice([i, sidval(), sidval(), max(0, i - 1)]))
        return k, "entry"
    if k == "minifat":
        if not lay.mfchain:
            return None
        i = rng.randrange(len(lay.mfchain) * ss // 4)
        put32(lay.minifatpos(i), rng.choice([i, rng.choice(ODD), rng.randrange(i + 2), max(0, i - 1)]))
        return k, "entry"
    if k == "difat":
        put32(76 + 4 * rng.randrange(min(109, len(lay.fats) + 2)), sidval())
        return k, "entry"
    if k == "entry":
        off = rng.choice(lay.entries)
        if rng.random() < 0.2:
            off = lay.entries[0]
        name = rng.choice(["left", "right", "child", "child", "start", "size", "size", "type", "namelen", "name", "class", "kind of",
                           "all links"])
        ids = [rng.randrange(lay.nids), rng.choice(ODD), lay.entries.index(off) % lay.nids, 0, rng.randrange(lay.nids)]
        if name in ("left", "right", "child"):
            put32(off + {"left": 68, "right": 72, "child": 76}[name], rng.choice(ids))
        elif name == "all links":
            for o in (68, 72, 76):
                put32(off + o, rng.choice(ids))
        elif name == "start":
            put32(off + 116, sidval())
        elif name == "size":
            struct.pack_into("<Q", buf, off + 120, rng.choice([0, 1, 63, 64, 4095, 4096, 4097, 1 << 20, 1 << 29, 1 << 31, (1 << 32) - 1,
                                                               1 << 33, 1 << 40, 1 << 62, (1 << 64) - 1, rng.randrange(100000)]))
        elif name == "type":
            buf[off + 66] = rng.choice([0, 1, 2, 3, 4, 5, 6, 255])
        elif name == "namelen":
            struct.pack_into("<H", buf, off + 64, rng.choice([0, 1, 2, 3, 63, 64, 65, 66, 128, 65535]))
        elif name == "name":
            buf[off + rng.randrange(64)] = rng.randrange(256)
        elif name == "class":
            buf[off + 80 + rng.randrange(16)] = rng.randrange(256)
        else:
            other = rng.choice(lay.entries)
            a, n = rng.choice([(64, 64), (80, 16), (116, 12), (0, 128), (68, 12)])
            buf[off + a:off + a + n] = buf[other + a:other + a + n]
        return k, name
    named = {"prop": [s for s in lay.streams if s[0].endswith("/properties")],
             "index": [s for s in lay.streams if s[0].endswith(" index")],
             "reftable": [s for s in lay.streams if s[0] == "/referenced properties"],
             "data": lay.streams}.get(k)
    if named is not None:
        named = [s for s in named if s[1].size > 4]
        if not named:
            return None
        path, node = rng.choice(named)
        n = node.size

        def put(off, v):
            if 0 <= off < n:
                buf[lay.streampos(node, off)] = v & 255

        def put16(off, v):
            put(off, v)
            put(off + 1, v >> 8)
        if k == "prop":
            count = node.data[2] | node.data[3] << 8
            f = rng.choice(["order", "count", "pid", "format", "size", "data", "data", "data byte"])
            e = 4 + 6 * rng.randrange(max(1, count))
            if f == "order":
                put(rng.choice([0, 1]), rng.choice([0, 0x42, 0xff]))
            elif f == "count":
                put16(2, rng.choice([0, count - 1, count + 1, 65535, 255]))
            elif f == "pid":
                put16(e, rng.choice([0, 1, 3, 5, 0x101, 0x4401, 0x8000, 0xffff, rng.randrange(65536)]))
            elif f == "format":
                put16(e + 2, rng.choice([0, 0x82, 0x42, 0x02, 0x12, 0x1a, 0x22, 0x32, 0x3a, 0x03, 0x40, 0xd2, 0xda, 0xffff]))
            elif f == "size":
                put16(e + 4, rng.choice([0, 1, 2, 3, 4, 16, 255, 65535, rng.randrange(300)]))
            else:
                # the value of a property, or its middle
                a = 4 + 6 * count
                off = rng.randrange(a, n) if n > a else n - 1
                for q in range(1 if f == "data byte" else rng.choice([1, 2, 4, 16])):
                    put(off + q, rng.choice([0, 255, rng.randrange(256)]))
            return k, f
        if k in ("index", "reftable"):
            f = rng.choice(["head", "head", "any", "any"])
            for _ in range(rng.choice([1, 2, 4])):
                put(rng.randrange(min(n, 13)) if f == "head" else rng.randrange(n), rng.choice([0, 255, 1, rng.randrange(256)]))
            return k, f
        put(rng.randrange(n), rng.randrange(256))
        return k, "byte"
    if k == "bytes":
        for _ in range(rng.choice([1, 5, 50])):
            buf[rng.randrange(len(buf))] = rng.randrange(256)
        return k, "random"
    if k == "block":
        n = rng.choice([16, 128, ss])
        o = rng.randrange(len(buf) // n) * n
        v = rng.choice([b"\0", b"\xff", b"A", None])
        m = min(n, len(buf) - o)
        if v is None:
            p = rng.randrange(len(buf) // n) * n
            src = bytes(buf[p:p + m])
            buf[o:o + len(src)] = src
        else:
            buf[o:o + m] = v * m
        return k, "overwritten"
    n = rng.choice([0, 1, 8, 75, 76, 511, 512, 513, ss, ss + 1, len(buf) // 2, len(buf) - 1, len(buf) - ss, rng.randrange(len(buf))])
    del buf[max(0, n):]
    return k, "truncated"


def read_storage(c, err):
    n = 0
    try:
        for root, ds, ss in c.walk("/"):
            for s in ss:
                try:
                    s.open("r").read()
                    n += 1
                except Exception as e:
                    err(e)
    except Exception as e:
        err(e)
    try:
        c.validate_directory_structure()
    except Exception as e:
        err(e)
    return n


def read_graph(f, err):
    seen = [0]

    def tryit(fn, *a):
        try:
            return fn(*a)
        except Exception as e:
            err(e)

    def value(p):
        if p.format == STREAM:
            return p.open("r").read()
        return p.value

    def obj(o, depth):
        seen[0] += 1
        for p in list(o.properties()):
            v = tryit(value, p)
            if p.format == STRONG and v is not None:
                tryit(obj, v, depth + 1)
            elif p.format in (SVEC, SSET):
                # one unreadable member shall not hide the others
                for i in range(len(p.references) if hasattr(p, "references") and isinstance(p.references, list) else 0):
                    if p.format == SVEC:
                        x = tryit(p.get, i)
                        if x is not None:
                            tryit(obj, x, depth + 1)
                if p.format == SSET:
                    for k in list(p.references):
                        x = tryit(p.get, k)
                        if x is not None:
                            tryit(obj, x, depth + 1)
    tryit(obj, f.root, 0)

    def mobs():
        for m in f.content.mobs:
            tryit(lambda: list(m.dependant_mobs()))
            for s in m.slots:
                tryit(lambda: s.length)
                seg = tryit(lambda: s.segment)
                if hasattr(seg, "walk"):
                    tryit(lambda: list(seg.walk()))
                if hasattr(seg, "positions"):
                    tryit(lambda: list(seg.positions()))
    tryit(mobs)
    tryit(lambda: list(f.content.toplevel()))
    with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):
        tryit(f.dump)
    return seen[0]


def vm():
    return int(open("/proc/self/statm").read().split()[0]) * 4096


def guarded(ctx, what, fn):
    """run fn under the limits; the exception or None"""
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    old = signal.getitimer(signal.ITIMER_VIRTUAL)
    t = time.process_time()
    resource.setrlimit(resource.RLIMIT_AS, (vm() + LIMIT_MEM, hard))
    signal.setitimer(signal.ITIMER_VIRTUAL, LIMIT_CPU)
    res = None
    over = None
    try:
        try:
            fn()
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
    except MemoryError:
        over = "needed more than %d MB" % (LIMIT_MEM >> 20)
    except CaseTimeout:
        import traceback
        over = "did not end within %d CPU seconds: %s" % (LIMIT_CPU, " < ".join(reversed(["%s:%d" % (x.name, x.lineno) for x in traceback.extract_tb(sys.exc_info()[2])][-40:])))
    except Exception as e:
        if isinstance(e, Violation):
            raise
        res = e
    except BaseException as e:
        raise Violation("not-an-ordinary-exception", "%s: %r" % (what, e))
    finally:
        used = time.process_time() - t
        signal.setitimer(signal.ITIMER_VIRTUAL, max(1, old[0] - used))
    if over:
        raise Violation("runaway", "%s: %s" % (what, over))
    ctx.notemax("cpu_ms", int(used * 1000))
    return res


def intact(ctx, i):
    rng = ctx.rng
    r = rng.random()
    if r < 0.3:
        ss = rng.choice([512, 4096])
        root, img, how = foreign(ctx, ss, biggest=rng.choice([30000, 30000, 400000]))
        return "storage", bytes(img)
    if r < 0.4:
        p = rng.choice([s for s in SAMPLES if os.path.getsize(s) < 600000])
        return "graph", open(p, "rb").read()
    w = AWorld(ctx, dict(addmob=10, reopen=0, save=1), maxdepth=2)
    for _ in range(3):
        w.op_addmob()
    w.op_addess()
    w.run(rng.choice([10, 40]))
    w.close(judge=False)
    return "graph", w.tf.getvalue()


def attempt(ctx, data, kind, what):
    """open and read everything; the outcome"""
    path = vfs.put("damaged-%d.aaf" % ctx.index, data)
    tf = vfs.get(path)
    tf.nwrites = tf.ntrunc = 0
    errors = []

    def err(e):
        if isinstance(e, MemoryError):
            raise e
        if len(errors) < 1000:
            errors.append(type(e).__name__)

    def run():
        if kind == "graph":
            with aaf2.open(path, "r") as f:
                read_graph(f, err)
                if len(data) < 400000:
                    read_storage(f.cfb, err)
        else:
            f = open(path, "rb")
            read_storage(cfbmod.CompoundFileBinary(f, "rb"), err)
    e = guarded(ctx, what, run)
    if tf.nwrites or tf.ntrunc or tf.getvalue() != bytes(data):
        raise Violation("written", "%s: reading a damaged file wrote to it" % (what,))
    if e is not None:
        ctx.note("refused_files")
        out = type(e).__name__
    else:
        ctx.note("read_to_the_end")
        out = "read"
        if errors:
            ctx.note("errors_while_reading")
            out = "errors"
    return out, errors


def case(ctx, i):
    rng = ctx.rng
    kind, data = intact(ctx, i)
    lay = Layout(data)
    ctx.check(not lay.im.problems, "intact", lambda: "seed file is not intact: %s" % lay.im.problems[:3])
    out, errors = attempt(ctx, data, kind, "intact file")
    ctx.check(out in ("read", "errors"), "intact", lambda: "intact file gave %s %s" % (out, errors[:5]))
    for n in range(12 if not ctx.thorough else 25):
        buf = bytearray(data)
        what = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            if len(buf) != len(data):
                break
            d = damage(rng, lay, buf)
            if d:
                what.append(d)
        if not what:
            continue
        ctx.note("damaged_files")
        ctx.log("damage", n, what)
        out, errors = attempt(ctx, bytes(buf), kind, "damage %d %s" % (n, what))
        for w in what:
            ctx.note("damaged_fields")
            ctx.note("kind " + w[0])
            ctx.distinct((kind, w, out, sorted(set(errors))[:3]))
    vfs.clear()
    ctx.sample([repr(e) for e in ctx.events[:15]])
