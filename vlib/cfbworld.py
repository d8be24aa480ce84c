"""Reference-model monitor for the compound file layer.

World keeps a plain model (nested dicts + bytearrays) next to a live
CompoundFileBinary and drives both with the same random operations, comparing
every observable result.  After closing, the file image is judged by
vlib.cfbref, which shares no code with the library.
"""
import posixpath

from . import cfbref
from .harness import Violation
from .vfile import TraceFile

from aaf2.cfb import CompoundFileBinary
from aaf2 import auid

SIZES = [0, 1, 2, 63, 64, 65, 127, 128, 129, 511, 512, 513, 1000, 2048, 4000, 4032, 4095, 4096, 4097, 4160, 5000,
         8191, 8192, 8193, 12288]


class MDir(object):
    kind = "d"

    def __init__(self):
        self.kids = {}
        self.clsid = None
        self.attrs = (0, 0, 0)       # state flags, creation time, modification time


class MFile(object):
    kind = "f"

    def __init__(self, data=b""):
        self.data = bytearray(data)
        self.clsid = None
        self.attrs = (0, 0, 0)


def content(rng, n):
    """n bytes that are recognisable and never all zero"""
    if n <= 0:
        return b""
    if n < 64:
        return bytes(rng.randrange(1, 256) for _ in range(n))
    tag = rng.getrandbits(64)
    blk = b"".join(((tag + k * 0x9E3779B97F4A7C15) & (2 ** 64 - 1) | 0x0101010101010101).to_bytes(8, "little")
                   for k in range((min(n, 65536) + 7) // 8))
    out = blk
    while len(out) < n:
        out += blk
    return out[:n]


def attrs_of(e):
    return (e.flags, e.create_time, e.modify_time)


def random_attrs(rng):
    return (rng.choice([0, 1, 0x80000000, 0xFFFFFFFF, rng.getrandbits(32)]),
            rng.choice([0, 1, 1 << 63, (1 << 64) - 1, rng.getrandbits(64), 0x01D00000FFFFFFFF]),
            rng.choice([0, 1, 1 << 63, (1 << 64) - 1, rng.getrandbits(64), 0x01D00000FFFFFFFF]))


def fold(name):
    return (len(name), name.upper())


class World(object):
    def __init__(self, ctx, sector_size=4096, profile="mixed", image=None, model=None, names=None, maxbig=60000):
        self.ctx = ctx
        self.rng = ctx.rng
        self.ss = sector_size
        self.root = model or MDir()
        self.profile = profile
        self.file = TraceFile(image)
        self.handles = []      # [model file, Stream, mode, pos]
        self.names = names
        self.maxbig = maxbig
        self.counter = 0
        self.cfb = None
        self.sessions = 0
        self.shrunk = False
        self.held = []         # [model node, DirEntry] kept over many operations
        self.tiny = self.rng.random() < 0.35
        if image is None:
            self.open("wb+")

    # ------------------------------------------------------------ sessions
    def open(self, mode):
        self.ctx.log("open", mode)
        self.file.closed = False
        self.file.pos = 0
        self.handles = []
        self.held = []
        self.cfb = CompoundFileBinary(self.file, mode, sector_size=self.ss)
        if self.tiny:
            self.shrink_caches()
        self.sessions += 1
        self.ctx.note("sessions")

    def shrink_caches(self):
        """bounded caches behave alike at any size: a tiny one evicts as a huge file would"""
        for name in ("children_cache", "sector_cache"):
            c = getattr(self.cfb, name, None)
            if type(c).__name__ == "LRUCacheDict":
                setattr(self.cfb, name, type(c)(self.rng.choice([1, 2, 4])))
                self.ctx.note("tiny_caches")

    def hold(self, n, e):
        if len(self.held) < 40 and e is not None:
            self.held.append([n, e])

    def ref(self, p, n):
        """something that names the node: its path, a fresh entry, or one that is held since long"""
        r = self.rng.random()
        if r < 0.5:
            return p
        if r < 0.7:
            return self.cfb.find(p)
        for m, e in self.held:
            if m is n:
                self.ctx.eq(e.path(), p, "namespace", "path() of an entry held for long")
                self.ctx.note("held_entries_used")
                return e
        e = self.cfb.find(p)
        self.hold(n, e)
        return e

    def close(self):
        self.ctx.log("close")
        self.cfb.close()
        self.cfb = None
        self.handles = []

    # ------------------------------------------------------------ model helpers
    def all(self, kind=None):
        out = []

        def rec(d, path):
            for k, v in d.kids.items():
                p = path + "/" + k
                if kind is None or v.kind == kind:
                    out.append((p, v))
                if v.kind == "d":
                    rec(v, p)
        rec(self.root, "")
        return out

    def lookup(self, path):
        n = self.root
        for part in [p for p in path.split("/") if p]:
            if n.kind != "d" or part not in n.kids:
                return None
            n = n.kids[part]
        return n

    def dirs(self):
        return [("/", self.root)] + self.all("d")

    def join(self, d, name):
        return ("" if d == "/" else d) + "/" + name

    def fresh_name(self, d):
        rng = self.rng
        used = {fold(k) for k in d.kids}
        for _ in range(100):
            r = rng.random()
            if self.names:
                n = rng.choice(self.names)
            elif r < 0.55:
                n = "".join(rng.choice("abcdefgXYZ0123") for _ in range(rng.choice([1, 1, 2, 2, 3, 4])))
            elif r < 0.75:
                self.counter += 1
                n = "item-%d" % self.counter
            elif r < 0.85:
                n = "".join(rng.choice("abcdefghijklmnop {}-_.") for _ in range(rng.choice([28, 29, 30, 31])))
            elif r < 0.95:
                n = "".join(rng.choice(u"äöüßéñ\u0416\u4e2d\u6587\uac00aB") for _ in range(rng.randint(1, 12)))
            else:
                n = rng.choice(["Root Entry", "..", ".", "a b", " x", "properties", "tmp", "\x01CompObj", "%s", "{0}",
                                "referenced properties", "%20", "x" * 31])
            if n and fold(n) not in used:
                return n
        self.counter += 1
        return "uniq%d" % self.counter

    def size(self):
        r = self.rng.random()
        if r < 0.55:
            return self.rng.choice(SIZES)
        if r < 0.85:
            return self.rng.randrange(0, 9000)
        return self.rng.randrange(0, self.maxbig)

    # ------------------------------------------------------------ operations
    def drop_handles(self, node):
        gone = set()

        def rec(n):
            gone.add(id(n))
            if n.kind == "d":
                for k in n.kids.values():
                    rec(k)
        rec(node)
        self.handles = [h for h in self.handles if id(h[0]) not in gone]
        self.held = [h for h in self.held if id(h[0]) not in gone]

    def op_mkdir(self):
        d, node = self.rng.choice(self.dirs())
        name = self.fresh_name(node)
        p = self.join(d, name)
        cls = None
        if self.rng.random() < 0.4:
            cls = auid.AUID(int=self.rng.getrandbits(128) | 1)
        self.ctx.log("makedir", p, str(cls))
        if self.rng.random() < 0.3:
            par = self.ref(d, node)
            e = (self.cfb.find(d) if isinstance(par, str) else par).makedir(name, cls)
        else:
            e = self.cfb.makedir(p, cls)
        node.kids[name] = MDir()
        node.kids[name].clsid = cls
        if self.rng.random() < 0.3:
            self.hold(node.kids[name], e)
        self.ctx.eq(e.name, name, "namespace", "name of the new directory")
        self.ctx.note("op_mkdir")

    def op_makedirs(self):
        d, node = self.rng.choice(self.dirs())
        p = d
        n = node
        for _ in range(self.rng.randint(1, 4)):
            if self.rng.random() < 0.4 and [k for k, v in n.kids.items() if v.kind == "d"]:
                name = self.rng.choice([k for k, v in n.kids.items() if v.kind == "d"])
                n = n.kids[name]
            else:
                name = self.fresh_name(n)
                n.kids[name] = MDir()
                n = n.kids[name]
            p = self.join(p, name)
        self.ctx.log("makedirs", p)
        if p == "/":
            return
        e = self.cfb.makedirs(p)
        self.ctx.check(e is not None and e.isdir(), "namespace", "makedirs(%r) returned %r" % (p, e))
        self.ctx.note("op_makedirs")

    def op_create(self):
        d, node = self.rng.choice(self.dirs())
        name = self.fresh_name(node)
        p = self.join(d, name)
        data = content(self.rng, self.size())
        how = self.rng.randrange(3)
        self.ctx.log("create", p, len(data), how)
        if how == 0:
            s = self.cfb.open(p, "w")
        elif how == 1:
            s = self.cfb.open(p, "rw")
        else:
            s = self.cfb.find(d).touch(name).open("w")
        f = MFile()
        node.kids[name] = f
        self._write(s, f, 0, data)
        if self.rng.random() < 0.5:
            self.handles.append([f, s, "rw", len(data)])
        self.ctx.note("op_create")

    def _write(self, s, f, pos, data):
        r = self.rng.random()
        chunk = len(data) if r < 0.6 else max(1, self.rng.choice([1 if len(data) < 300 else 700, 63, 64, 100, 4096, 10000]))
        k = 0
        while k < len(data) or (k == 0 and not data):
            part = data[k:k + chunk]
            s.write(part if self.rng.random() < 0.7 else bytearray(part))
            k += len(part)
            if not part:
                break
        if data:
            if pos > len(f.data):
                f.data.extend(bytes(pos - len(f.data)))
            f.data[pos:pos + len(data)] = data
        self.ctx.note("stream_writes")

    def get_handle(self, modes=("rw", "w", "r")):
        rng = self.rng
        live = [h for h in self.handles if h[2] in modes]
        if live and rng.random() < 0.7:
            return rng.choice(live)
        files = self.all("f")
        if not files:
            return None
        p, f = rng.choice(files)
        mode = rng.choice([m for m in modes if m != "w"] or ["rw"])
        self.handles = [h for h in self.handles if h[0] is not f]
        self.ctx.log("open-stream", p, mode)
        s = self.cfb.open(p, mode)
        self.ctx.eq(s.tell(), 0, "stream-pos", "position after open")
        h = [f, s, mode, 0]
        self.handles.append(h)
        if len(self.handles) > 8:
            self.handles.pop(0)
        return h

    def op_write(self):
        h = self.get_handle(("rw", "w"))
        if not h:
            return
        f, s, mode, pos = h
        data = content(self.rng, self.size())
        self.ctx.log("write", pos, len(data))
        self._write(s, f, pos, data)
        h[3] = pos + len(data)
        self.ctx.eq(s.tell(), h[3], "stream-pos", "position after write of %d at %d" % (len(data), pos))

    def op_seek(self):
        h = self.get_handle()
        if not h:
            return
        f, s, mode, pos = h
        n = len(f.data)
        rng = self.rng
        r = rng.random()
        if r < 0.5:
            tgt = rng.randint(0, n)
        elif r < 0.75:
            tgt = min(n, rng.choice(SIZES))
        elif mode != "r":
            tgt = n + rng.choice([0, 1, 63, 64, 65, 500, 4096, 5000, 20000])
        else:
            tgt = n
        if tgt > n:
            self.shrunk = True
        w = rng.randrange(3)
        self.ctx.log("seek", tgt, w)
        if w == 0:
            got = s.seek(tgt)
        elif w == 1:
            got = s.seek(tgt - pos, 1)
        else:
            got = s.seek(tgt - n, 2)
        if tgt > n:
            f.data.extend(bytes(tgt - n))
            self.ctx.note("overseek")
        h[3] = tgt
        self.ctx.eq(got, tgt, "stream-pos", "seek result")
        self.ctx.eq(s.tell(), tgt, "stream-pos", "tell after seek")
        if rng.random() < 0.1:
            self.ctx.raises(ValueError, "stream-seek-negative", s.seek, -1)
            self.ctx.eq(s.tell(), tgt, "stream-pos", "tell after failed seek")

    def op_read(self):
        h = self.get_handle(("rw", "r", "w"))
        if not h:
            return
        f, s, mode, pos = h
        r = self.rng.random()
        n = -1 if r < 0.25 else self.size()
        self.ctx.log("read", pos, n)
        got = s.read() if n == -1 and self.rng.random() < 0.5 else s.read(n)
        want = f.data[pos:] if n == -1 else f.data[pos:pos + n]
        self.ctx.eq(bytes(got), bytes(want), "stream-content", "read(%d) at %d of %d byte stream" % (n, pos, len(f.data)))
        h[3] = pos + len(want)
        self.ctx.eq(s.tell(), h[3], "stream-pos", "position after read")
        self.ctx.note("stream_reads")
        self.ctx.note("bytes_compared", len(want))

    def op_truncate(self):
        h = self.get_handle(("rw", "w"))
        if not h:
            return
        f, s, mode, pos = h
        n = len(f.data)
        rng = self.rng
        r = rng.random()
        if r < 0.2:
            size = None
        elif r < 0.3:
            size = 0
        elif r < 0.7:
            size = rng.randint(0, n)
        elif r < 0.9:
            size = min(n, rng.choice(SIZES))
        else:
            size = n + rng.choice([0, 1, 64, 4096, 9000])
        self.ctx.log("truncate", size, "of", n, "at", pos)
        if size is None:
            s.truncate()
            size = pos
        else:
            s.truncate(size)
        if size < n:
            del f.data[size:]
        elif size > n:
            f.data.extend(bytes(size - n))
            self.ctx.note("truncate_grow")
        h[3] = min(pos, size)
        self.ctx.eq(s.tell(), h[3], "stream-pos", "position after truncate(%r)" % size)
        self.ctx.note("stream_truncates")

    def op_overwrite(self):
        files = self.all("f")
        if not files:
            return
        p, f = self.rng.choice(files)
        self.drop_handles(f)
        data = content(self.rng, self.size())
        self.ctx.log("open-w", p, len(data))
        s = self.cfb.open(self.ref(p, f), "w")
        f.data = bytearray()
        f.clsid = None
        f.attrs = attrs_of(self.cfb.find(p))       # an emptied stream is a new one or the old one
        self.ctx.eq(bytes(s.read()), b"", "stream-content", "content after opening for writing")
        self._write(s, f, 0, data)
        self.handles.append([f, s, "w", len(data)])
        self.ctx.note("op_overwrite")

    def op_remove(self):
        c = [(p, n) for p, n in self.all() if n.kind == "f" or not n.kids]
        if not c:
            return
        p, n = self.rng.choice(c)
        self.ctx.log("remove", p)
        self.cfb.remove(self.ref(p, n))
        self.drop_handles(n)
        par = self.lookup(posixpath.dirname(p))
        del par.kids[posixpath.basename(p)]
        self.ctx.note("op_remove")
        self.ctx.check(not self.cfb.exists(p), "namespace", lambda: "%r still exists after remove" % p)

    def op_rmtree(self):
        c = self.all("d")
        if not c:
            return
        p, n = self.rng.choice(c)
        if len(n.kids) > 12 and self.rng.random() < 0.5:
            return
        self.ctx.log("rmtree", p)
        self.cfb.rmtree(self.ref(p, n))
        self.drop_handles(n)
        par = self.lookup(posixpath.dirname(p))
        del par.kids[posixpath.basename(p)]
        self.ctx.note("op_rmtree")
        self.ctx.check(not self.cfb.exists(p), "namespace", lambda: "%r still exists after rmtree" % p)

    def op_move(self):
        c = self.all()
        if not c:
            return
        p, n = self.rng.choice(c)
        below = set()
        if n.kind == "d":
            def rec(d):
                below.add(id(d))
                for k in d.kids.values():
                    if k.kind == "d":
                        rec(k)
            rec(n)
        targets = [(d, m) for d, m in self.dirs() if id(m) not in below]
        if not targets:
            return
        d, m = self.rng.choice(targets)
        par = self.lookup(posixpath.dirname(p))
        base = posixpath.basename(p)
        keep = self.rng.random() < 0.25
        if keep and fold(base) not in {fold(k) for k in m.kids}:
            name = base
            dst = ("" if d == "/" else d) + "/"
        elif self.rng.random() < 0.1 and base.swapcase() != base and fold(base.swapcase()) == fold(base):
            name = base.swapcase()
            d, m = posixpath.dirname(p), par
            dst = self.join(d, name)
        else:
            name = self.fresh_name(m)
            dst = self.join(d, name)
        self.ctx.log("move", p, dst)
        e = self.cfb.move(self.ref(p, n), dst)
        del par.kids[base]
        m.kids[name] = n
        self.ctx.eq(e.name, name, "namespace", "name after move")
        self.ctx.check(not self.cfb.exists(p), "namespace", lambda: "%r still exists after move" % p)
        self.ctx.check(self.cfb.exists(self.join(d, name)), "namespace", lambda: "%r missing after move" % dst)
        self.ctx.note("op_move")

    def op_class_id(self):
        c = self.dirs()
        p, n = self.rng.choice(c)
        if n is self.root:
            return
        cls = auid.AUID(int=self.rng.getrandbits(128) | 1) if self.rng.random() < 0.8 else None
        self.ctx.log("class_id", p, str(cls))
        e = self.ref(p, n)
        (self.cfb.find(p) if isinstance(e, str) else e).class_id = cls
        n.clsid = cls
        self.ctx.note("op_class_id")

    def op_attrs(self):
        """state flags and times belong to the entry: what is set stays until it is set again"""
        c = self.all() + [("/", self.root)]
        p, n = self.rng.choice(c)
        e = self.ref(p, n) if n is not self.root else self.cfb.find("/")
        e = self.cfb.find(p) if isinstance(e, str) else e
        new = random_attrs(self.rng)
        which = self.rng.sample([0, 1, 2], self.rng.choice([1, 2, 3]))
        self.ctx.log("attrs", p, new, which)
        for k in which:
            setattr(e, ("flags", "create_time", "modify_time")[k], new[k])
        n.attrs = tuple(new[k] if k in which else n.attrs[k] for k in range(3))
        self.ctx.eq(attrs_of(e), n.attrs, "entry-attributes", "flags and times of %r" % p)
        self.ctx.note("attributes_set")

    def op_errors(self):
        """Requests that must be refused and change nothing."""
        rng = self.rng
        k = rng.randrange(9)
        c = self.all()
        f = self.all("f")
        E = (ValueError, TypeError)
        ctx = self.ctx
        if k == 0 and c:
            p, n = rng.choice(c)
            ctx.log("bad-makedir-existing", p)
            ctx.raises(E, "refused-existing", self.cfb.makedir, p)
        elif k == 1:
            ds = [(p, n) for p, n in self.all("d") if n.kids]
            if ds:
                p, n = rng.choice(ds)
                ctx.log("bad-remove-nonempty", p)
                ctx.raises(E, "refused-nonempty", self.cfb.remove, p)
        elif k == 2:
            d, n = rng.choice(self.dirs())
            p = self.join(d, "no such entry")
            ctx.log("bad-missing", p)
            ctx.raises(E, "refused-missing", self.cfb.remove, p)
            ctx.raises(E, "refused-missing", self.cfb.open, p, "r")
            ctx.raises(E, "refused-missing", self.cfb.move, p, "/zz zz")
            ctx.check(self.cfb.find(p) is None and not self.cfb.exists(p), "namespace", "a missing path is found")
        elif k == 3 and f:
            p, n = rng.choice(f)
            ctx.log("bad-under-stream", p)
            ctx.raises(E, "refused-under-stream", self.cfb.makedir, p + "/x")
            ctx.raises(E, "refused-list-stream", self.cfb.listdir, p)
        elif k == 4 and len(c) > 1:
            (p, n), (q, m) = rng.sample(c, 2)
            ctx.log("bad-move-onto", p, q)
            ctx.raises(E, "refused-move-existing", self.cfb.move, p, q)
        elif k == 5:
            d, n = rng.choice(self.dirs())
            ctx.log("bad-no-parent", d)
            ctx.raises(E, "refused-no-parent", self.cfb.makedir, self.join(d, "absent one") + "/child")
            ctx.raises(E, "refused-remove-root", self.cfb.remove, "/")
        elif k == 6:
            ds = self.all("d")
            if ds:
                p, n = rng.choice(ds)
                sub = [q for q, m in self.all("d") if q == p or q.startswith(p + "/")]
                q = rng.choice(sub) + "/into myself"
                ctx.log("bad-move-into-self", p, q)
                ctx.raises(E, "refused-move-into-self", self.cfb.move, p, q)
        elif k == 7:
            ds = self.all("d")
            if ds:
                p, n = rng.choice(ds)
                ctx.log("bad-open-dir", p)
                ctx.raises(E, "refused-open-dir", self.cfb.open, p, rng.choice(["r", "rw", "w"]))
        elif k == 8 and c:
            alts = [(p, p[:-len(posixpath.basename(p))] + posixpath.basename(p).swapcase()) for p, n in c]
            alts = [(p, q) for p, q in alts if p != q and fold(posixpath.basename(p)) == fold(posixpath.basename(q))]
            if alts:
                p, q = rng.choice(alts)
                ctx.log("bad-case-twin", p, q)
                ctx.raises(E, "refused-case-twin", self.cfb.makedir, q)
                ctx.raises(E, "refused-case-twin", self.cfb.open, q, "w")
                other = [r for r, n in c if not p.startswith(r)]
                if other:
                    ctx.raises(E, "refused-case-twin", self.cfb.move, rng.choice(other), q)
        ctx.note("op_refused")

    # ------------------------------------------------------------ observation
    def op_list(self):
        d, n = self.rng.choice(self.dirs())
        self.check_dir(d, n)

    def check_dir(self, d, n):
        ctx = self.ctx
        if d == "/" and self.rng.random() < 0.5:
            entries = list(self.cfb.listdir())
            ctx.eq(sorted(self.cfb.listdir_dict()), sorted(n.kids), "namespace", "names of the root")
        else:
            entries = list(self.cfb.listdir(self.ref(d, n)))
        names = sorted(e.name for e in entries)
        ctx.eq(names, sorted(n.kids), "namespace", "listing of %r" % d)
        for e in entries:
            k = n.kids[e.name]
            ctx.eq(e.isdir(), k.kind == "d", "namespace", "kind of %r in %r" % (e.name, d))
            ctx.eq(e.isfile(), k.kind == "f", "namespace", "kind of %r in %r" % (e.name, d))
            if k.kind == "f":
                ctx.eq(e.byte_size, len(k.data), "stream-size", "size of %r in %r" % (e.name, d))
            else:
                ctx.eq(e.class_id, k.clsid, "class-id", "class id of %r in %r" % (e.name, d))
            ctx.eq(attrs_of(e), k.attrs, "entry-attributes", "flags and times of %r in %r" % (e.name, d))
            ctx.eq(e.path(), self.join(d, e.name), "namespace", "path() of an entry")
        ctx.note("listings")

    def op_lookup(self):
        c = self.all()
        if not c:
            return
        p, n = self.rng.choice(c)
        e = self.cfb.find(p)
        self.ctx.check(e is not None, "namespace", lambda: "%r not found" % p)
        self.ctx.eq(e.name, posixpath.basename(p), "namespace", "name of found entry")
        self.ctx.eq(e.isdir(), n.kind == "d", "namespace", "kind of found entry")
        g = self.cfb.find(posixpath.dirname(p)).get(e.name)
        self.ctx.check(g is not None and g.name == e.name, "namespace", "get() misses the entry")
        if n.kind == "f" and self.rng.random() < 0.5:
            self.compare_stream(p, n)

    def compare_stream(self, p, f):
        got = bytes(self.cfb.open(p, "r").read())
        self.ctx.eq(got, bytes(f.data), "stream-content", "whole content of %r" % p)
        self.ctx.note("streams_compared")
        self.ctx.note("bytes_compared", len(got))

    def op_walk(self):
        d, n = self.rng.choice(self.dirs())
        top = self.rng.random() < 0.5
        want = {}

        def rec(m, path):
            want[id(m)] = (sorted(k for k, v in m.kids.items() if v.kind == "d"),
                           sorted(k for k, v in m.kids.items() if v.kind == "f"))
            for v in m.kids.values():
                if v.kind == "d":
                    rec(v, path)
        rec(n, d)
        self.ctx.log("walk", d, top)
        visited = []
        seq = []
        for root, storages, streams in self.cfb.walk(self.ref(d, n), topdown=top):
            visited.append(("" if root.isroot() else root.name,
                            tuple(sorted(s.name for s in storages)), tuple(sorted(s.name for s in streams))))
            seq.append((root, [s for s in storages]))
        # every directory below d that has entries is visited exactly once (an empty one may be left out by topdown walks)
        model = []

        def rec2(m, name):
            if m.kids or m is not n:
                model.append((name, tuple(sorted(k for k, v in m.kids.items() if v.kind == "d")),
                              tuple(sorted(k for k, v in m.kids.items() if v.kind == "f"))))
            for k, v in m.kids.items():
                if v.kind == "d":
                    rec2(v, k)
        rec2(n, posixpath.basename(d) if d != "/" else "")
        strip = lambda L: sorted(x for x in L if x[1] or x[2])
        self.ctx.eq(strip(visited), strip(model), "namespace-walk", "walk(%r, topdown=%s)" % (d, top))
        # order: parents before children when topdown, after otherwise
        index = {}
        for k, (root, _) in enumerate(seq):
            index[id(root)] = k
        for k, (root, subs) in enumerate(seq):
            for s in subs:
                if id(s) in index:
                    ok = index[id(s)] > k if top else index[id(s)] < k
                    self.ctx.check(ok, "namespace-walk", "walk order (topdown=%s)" % top)
        self.ctx.note("walks")

    def check_all(self):
        for d, n in self.dirs():
            self.check_dir(d, n)
        for p, f in self.all("f"):
            self.compare_stream(p, f)

    def model_tree(self):
        out = {}
        for p, n in self.all():
            if n.kind == "f":
                out[p] = ("f", bytes(n.data))
            else:
                out[p] = ("d", n.clsid.bytes_le if n.clsid is not None else b"\0" * 16)
        return out

    def judge_image(self, sigs=None, balance=False, strict_end=False):
        """Independent verdict on the closed file."""
        ctx = self.ctx
        im = cfbref.parse(self.file, check_balance=balance, strict_end=strict_end)
        ctx.note("images_judged")
        probs = im.problems
        if sigs is not None:
            probs = [p for p in probs if p[0] in sigs]
        ctx.check(not probs, "image-" + (probs[0][0] if probs else ""), lambda: "; ".join("%s: %s" % p for p in probs[:6]))
        if im.root is None:
            return im
        got = im.tree()
        want = self.model_tree()
        if got != want:
            miss = sorted(set(want) - set(got))[:4]
            extra = sorted(set(got) - set(want))[:4]
            diff = [p for p in want if p in got and got[p] != want[p]][:4]
            raise Violation("image-content", "independent reader sees a different tree: missing %s extra %s differing %s"
                            % (miss, extra, [(p, [len(x) if isinstance(x, bytes) else x for x in (got[p][1], want[p][1])])
                                             for p in diff]))
        want = {p: n.attrs for p, n in self.all()}
        want[""] = self.root.attrs
        got = im.attrs()
        ctx.check(got == want, "entry-attributes", lambda: "flags and times in the file: %s"
                  % [(p, got.get(p), want[p]) for p in want if got.get(p) != want[p]][:4])
        ctx.note("oracle_checks")
        for k in ("sectors", "fat_sectors", "difat_sectors", "depth", "entries"):
            ctx.notemax(k, im.stats.get(k, 0))
        return im

    OPS = {
        "stream": dict(create=6, write=14, seek=12, read=16, truncate=10, overwrite=4, remove=2, mkdir=1, list=1, lookup=1,
                       move=1, attrs=1),
        "tree": dict(create=10, mkdir=10, makedirs=3, remove=9, rmtree=2, move=9, class_id=2, attrs=2, errors=6, list=8, lookup=6,
                     walk=3, write=1, overwrite=1),
        "mixed": dict(create=8, write=6, seek=3, read=4, truncate=5, overwrite=3, mkdir=5, makedirs=1, remove=6, rmtree=1,
                      move=4, class_id=1, attrs=1, errors=1, list=2, lookup=2, walk=1),
    }

    def run(self, nops, weights=None):
        w = weights or self.OPS[self.profile]
        names = list(w)
        cum = []
        t = 0
        for k in names:
            t += w[k]
            cum.append(t)
        for _ in range(nops):
            op = self.rng.choices(names, cum_weights=cum)[0]
            getattr(self, "op_" + op)()
            self.ctx.note("ops")
