"""Independent reader/validator and writer for compound files ([MS-CFB]).

Shares no code with aaf2.  `parse(reader)` returns an Image holding the whole
tree with stream contents and a list of structural problems; `build(...)` lays a
tree out in a chosen, possibly unusual, but valid way.
"""
import struct

DIF, FATS, EOC, FREE = 0xFFFFFFFC, 0xFFFFFFFD, 0xFFFFFFFE, 0xFFFFFFFF
MAXREG = 0xFFFFFFFA
NOSTREAM = 0xFFFFFFFF
MAGIC = b"\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1"
RANGELOCK_LO, RANGELOCK_HI = 0x7FFFFF00, 0x7FFFFFFF


class BytesReader(object):
    def __init__(self, data):
        self.data = data
        self.size = len(data)

    def at(self, off, n):
        return bytes(self.data[off:off + n])


class Node(object):
    __slots__ = ("name", "type", "color", "left", "right", "child", "clsid", "flags", "ctime", "mtime", "start",
                 "size", "id", "children", "data", "chain")

    def __repr__(self):
        return "<%s %d>" % (self.name, self.type)


class Image(object):
    def __init__(self):
        self.problems = []
        self.root = None
        self.stats = {}

    def bad(self, kind, fmt, *a):
        if len(self.problems) < 40:
            self.problems.append((kind, fmt % a if a else fmt))

    def tree(self, prefix=""):
        """{path: ('d', clsid) | ('f', bytes)}"""
        out = {}

        def rec(node, path):
            for c in node.children:
                p = path + "/" + c.name
                if c.type == 2:
                    out[p] = ("f", c.data)
                else:
                    out[p] = ("d", c.clsid)
                    rec(c, p)
        rec(self.root, prefix)
        return out

    def attrs(self):
        """{path: (flags, creation time, modification time)}, the root under ''"""
        out = {}

        def rec(node, path):
            out[path] = (node.flags, node.ctime, node.mtime)
            for c in node.children:
                rec(c, path + "/" + c.name)
        rec(self.root, "")
        return out


def sortkey(name):
    # UTF-16 code units, as the format compares them
    u = name.upper()
    return (len(name.encode("utf-16le", "surrogatepass")) // 2, u)


def parse(r, want_data=True, check_balance=False, max_data=1 << 31, strict_end=False):
    im = Image()
    hdr = r.at(0, 512)
    if len(hdr) < 512 or hdr[:8] != MAGIC:
        im.bad("header", "bad magic or short header")
        return im
    (minor, major, bom, sshift, mshift) = struct.unpack_from("<HHHHH", hdr, 24)
    (ndir, nfat, dirstart, txn, cutoff, mfstart, nmf, dfstart, ndf) = struct.unpack_from("<IIIIIIIII", hdr, 40)
    if bom != 0xFFFE:
        im.bad("header", "byte order %x", bom)
    if sshift not in (9, 12) or mshift != 6 or cutoff != 4096:
        im.bad("header", "shifts %d %d cutoff %d", sshift, mshift, cutoff)
        return im
    ss = 1 << sshift
    im.sector_size = ss
    nsect = max(0, (r.size + ss - 1) // ss - 1)
    im.nsect = nsect
    owner = {}

    def own(sid, who):
        if sid in owner:
            im.bad("sector-shared", "sector %d belongs to both %s and %s", sid, owner[sid], who)
            return False
        owner[sid] = who
        return True

    per = ss // 4
    # DIFAT
    fatsects = [s for s in struct.unpack_from("<109I", hdr, 76) if s != FREE]
    hdr_list = struct.unpack_from("<109I", hdr, 76)
    seen_free = False
    for s in hdr_list:
        if s == FREE:
            seen_free = True
        elif seen_free:
            im.bad("difat", "hole in the header DIFAT")
            break
    sid, got = dfstart, 0
    while sid <= MAXREG and got <= ndf:
        got += 1
        if not own(sid, "DIFAT"):
            break
        tab = struct.unpack("<%dI" % per, r.at((sid + 1) * ss, ss).ljust(ss, b"\xff"))
        part = [s for s in tab[:-1] if s != FREE]
        if part and FREE in hdr_list:
            im.bad("difat", "DIFAT sector used before the header is full")
        fatsects += part
        sid = tab[-1]
    difs = [s for s, w in owner.items() if w == "DIFAT"]
    if got and sid != EOC and strict_end:
        im.bad("difat", "the last DIFAT sector is not marked as the end of the chain")
    if got != ndf:
        im.bad("difat", "header says %d DIFAT sectors, chain has %d", ndf, got)
    if len(fatsects) != nfat:
        im.bad("fat-count", "header says %d FAT sectors, DIFAT lists %d", nfat, len(fatsects))
    fat = []
    for s in fatsects:
        own(s, "FAT")
        d = r.at((s + 1) * ss, ss)
        if len(d) != ss:
            im.bad("short-file", "FAT sector %d is beyond the end of the file", s)
            d = d.ljust(ss, b"\xff")
        fat.extend(struct.unpack("<%dI" % per, d))
    im.fat = fat

    def chain(start, who, limit=None):
        out = []
        sid = start
        while sid != EOC:
            if sid > MAXREG or sid >= len(fat):
                im.bad("chain", "%s: chain from %d reaches %x after %d sectors", who, start, sid, len(out))
                break
            if not own(sid, who):
                break
            out.append(sid)
            sid = fat[sid]
        return out

    def read(ch, size=None):
        b = bytearray()
        run = []
        for s in ch:
            d = r.at((s + 1) * ss, ss)
            b += d.ljust(ss, b"\0")
        return b if size is None else b[:size]

    dirchain = chain(dirstart, "directory")
    if not dirchain:
        im.bad("directory", "no directory")
        return im
    if major >= 4 and ndir not in (len(dirchain),):
        im.bad("directory", "header says %d directory sectors, chain has %d", ndir, len(dirchain))
    dirdata = read(dirchain)
    nodes = []
    for k in range(len(dirdata) // 128):
        e = dirdata[k * 128:(k + 1) * 128]
        n = Node()
        nl, n.type, n.color, n.left, n.right, n.child = struct.unpack_from("<HBBIII", e, 64)
        n.clsid = bytes(e[80:96])
        n.flags, n.ctime, n.mtime, n.start, n.size = struct.unpack_from("<IQQIQ", e, 96)
        if ss == 512 and major == 3:
            n.size &= 0xFFFFFFFF
        n.id = k
        n.children = []
        n.data = None
        n.chain = None
        raw = bytes(e[:64])
        if n.type:
            if nl < 2 or nl > 64 or nl % 2:
                im.bad("dir-name", "entry %d: name length field %d", k, nl)
                nl = max(2, min(nl & ~1, 64))
            n.name = raw[:nl].decode("utf-16le", "backslashreplace").split("\0")[0]
        else:
            n.name = ""
        nodes.append(n)
    root = nodes[0]
    if root.type != 5:
        im.bad("directory", "entry 0 has type %d", root.type)
        return im
    im.root = root

    # mini FAT
    mfchain = chain(mfstart, "miniFAT") if mfstart <= MAXREG else []
    if len(mfchain) != nmf:
        im.bad("minifat", "header says %d miniFAT sectors, chain has %d", nmf, len(mfchain))
    minifat = list(struct.unpack("<%dI" % (len(mfchain) * per), bytes(read(mfchain)))) if mfchain else []
    mschain = chain(root.start, "mini stream") if root.start <= MAXREG else []
    if root.size > len(mschain) * ss:
        im.bad("ministream", "root size %d exceeds its chain of %d sectors", root.size, len(mschain))
    if mschain and (root.size + ss - 1) // ss != len(mschain):
        im.bad("ministream", "root size %d, chain of %d sectors", root.size, len(mschain))
    ms = read(mschain)
    mowner = {}

    def mchain(start, who):
        out = []
        sid = start
        while sid != EOC:
            if sid > MAXREG or sid >= len(minifat):
                im.bad("mini-chain", "%s: mini chain from %d reaches %x", who, start, sid)
                break
            if sid in mowner:
                im.bad("minisector-shared", "mini sector %d belongs to both %s and %s", sid, mowner[sid], who)
                break
            mowner[sid] = who
            out.append(sid)
            sid = minifat[sid]
        return out

    # directory trees
    seen = {0}
    maxdepth = [0]

    def walk(sid, path, out, lo, hi, depth, parent_red):
        """in-order; returns black height"""
        if sid == NOSTREAM:
            return 1
        if sid >= len(nodes):
            im.bad("dir-tree", "%s: sibling/child id %d out of range", path, sid)
            return 1
        if sid in seen:
            im.bad("dir-tree", "%s: directory entry %d reached twice", path, sid)
            return 1
        seen.add(sid)
        n = nodes[sid]
        if n.type not in (1, 2):
            im.bad("dir-tree", "%s: entry %d (%r) in the tree has type %d", path, sid, n.name, n.type)
            return 1
        k = sortkey(n.name)
        if (lo is not None and not lo < k) or (hi is not None and not k < hi):
            im.bad("dir-order", "%s: %r out of order in its sibling tree", path, n.name)
        if n.color not in (0, 1):
            im.bad("dir-tree", "%s/%s: color %d", path, n.name, n.color)
        red = n.color == 0
        if red and parent_red and check_balance:
            im.bad("dir-balance", "%s: red node %r under a red parent", path, n.name)
        if depth > maxdepth[0]:
            maxdepth[0] = depth
        a = walk(n.left, path, out, lo, k, depth + 1, red)
        out.append(n)
        b = walk(n.right, path, out, k, hi, depth + 1, red)
        if a != b and check_balance:
            im.bad("dir-balance", "%s: black heights %d/%d at %r", path, a, b, n.name)
        return a + (0 if red else 1)

    todo = [(root, "")]
    streams = []
    total = 0
    import sys as _s
    while todo:
        n, path = todo.pop()
        walk(n.child, path or "/", n.children, None, None, 1, False)
        for c in n.children:
            p = path + "/" + c.name
            if c.type == 1:
                todo.append((c, p))
            else:
                streams.append((c, p))
                if c.child != NOSTREAM:
                    im.bad("dir-tree", "%s: stream with a child id", p)
    for c, p in streams:
        if c.size == 0:
            if c.start <= MAXREG:
                im.bad("stream-chain", "%s: empty stream with start sector %d", p, c.start)
            c.data = b""
        elif c.size < cutoff:
            ch = mchain(c.start, p)
            if len(ch) != (c.size + 63) // 64:
                im.bad("stream-chain", "%s: %d bytes, chain of %d mini sectors", p, c.size, len(ch))
            d = bytearray()
            for s in ch:
                d += ms[s * 64:s * 64 + 64].ljust(64, b"\0")
                if (s + 1) * 64 > len(ms):
                    im.bad("ministream", "%s: mini sector %d beyond the mini stream", p, s)
                elif (s * 64) >= root.size:
                    im.bad("ministream", "%s: mini sector %d beyond the recorded mini stream size %d", p, s, root.size)
            c.data = bytes(d[:c.size])
        else:
            ch = chain(c.start, p)
            if len(ch) != (c.size + ss - 1) // ss:
                im.bad("stream-chain", "%s: %d bytes, chain of %d sectors", p, c.size, len(ch))
            c.chain = ch
            if want_data and total + c.size < max_data:
                total += c.size
                c.data = bytes(read(ch, c.size))
    # leftovers
    for n in nodes:
        if n.id not in seen and n.type != 0:
            im.bad("dir-orphan", "entry %d (%r, type %d) is not reachable", n.id, n.name, n.type)
    leaked = []
    last = -1
    rl = set()
    if ss == 4096:
        rl.add(RANGELOCK_LO // 4096 - 1)
    for s, v in enumerate(fat):
        if v != FREE:
            if s not in owner and s not in rl:
                leaked.append(s)
            last = s
        elif s in owner:
            im.bad("chain", "sector %d is used by %s but marked free", s, owner[s])
    for s, w in owner.items():
        if s >= len(fat):
            im.bad("chain", "sector %d (%s) has no FAT entry", s, w)
            continue
        if w == "FAT" and fat[s] != FATS:
            im.bad("fat-mark", "FAT sector %d marked %x", s, fat[s])
        elif w == "DIFAT" and fat[s] != DIF:
            im.bad("fat-mark", "DIFAT sector %d marked %x", s, fat[s])
        elif w not in ("FAT", "DIFAT") and fat[s] in (FATS, DIF):
            im.bad("fat-mark", "sector %d of %s marked %x", s, w, fat[s])
        if s in rl:
            im.bad("range-lock", "range lock sector %d used by %s", s, w)
        if s >= nsect:
            im.bad("short-file", "sector %d (%s) is beyond the end of the file", s, w)
    if leaked:
        im.bad("sector-leak", "%d allocated sectors belong to nothing: %s", len(leaked), leaked[:8])
    mleak = [s for s, v in enumerate(minifat) if v != FREE and s not in mowner]
    if mleak:
        im.bad("minisector-leak", "%d allocated mini sectors belong to nothing: %s", len(mleak), mleak[:8])
    for s in mowner:
        if minifat[s] == FREE:
            im.bad("mini-chain", "mini sector %d used but marked free", s)
    im.stats = dict(sectors=nsect, fat_sectors=len(fatsects), difat_sectors=len(difs), used=len(owner),
                    mini_used=len(mowner), entries=len(seen), depth=maxdepth[0],
                    free=sum(1 for v in fat if v == FREE), major=major, last_used=last)
    return im


# --------------------------------------------------------------------------- writer

class TNode(object):
    """A tree to lay out: dirs have children dict, files have data."""

    def __init__(self, name, data=None, clsid=b"\0" * 16):
        self.name = name
        self.data = data
        self.clsid = clsid
        self.attrs = (0, 0, 0)
        self.children = {}


def build(root, rng, ss=4096, major=None, shuffle=True, holes=0.0, tree="random", free_tail=0,
          first_sector_free=False, eoc_none=True, dir_holes=0):
    """Lay out a tree (TNode) as compound file bytes.

    shuffle: sectors of all chains in random order; holes: fraction of free sectors
    mixed in; tree: 'random' (arbitrary BST, all black), 'balanced', 'chain'.
    """
    if major is None:
        major = 4 if ss == 4096 else 3
    per = ss // 4
    entries = []

    def add(node, typ):
        e = dict(node=node, type=typ, left=NOSTREAM, right=NOSTREAM, child=NOSTREAM, start=EOC, size=0, id=None)
        entries.append(e)
        return e

    rootent = add(root, 5)
    ents = []

    def rec(node, ent):
        kids = []
        for name in node.children:
            c = node.children[name]
            e = add(c, 2 if c.data is not None else 1)
            kids.append(e)
            if c.data is None:
                rec(c, e)
        ent["kids"] = kids

    rec(root, rootent)
    rest = entries[1:]
    if shuffle:
        rng.shuffle(rest)
    slots = list(range(1, len(rest) + 1 + dir_holes))
    if dir_holes:
        slots = sorted(rng.sample(slots, len(rest)))
    rootent["id"] = 0
    for e, s in zip(rest, slots):
        e["id"] = s
    nslots = (max(slots) if rest else 0) + 1

    def bst(items):
        if not items:
            return NOSTREAM
        if tree == "balanced":
            m = len(items) // 2
        elif tree == "chain":
            m = 0
        else:
            m = rng.randrange(len(items))
        e = items[m]
        e["left"] = bst(items[:m])
        e["right"] = bst(items[m + 1:])
        return e["id"]

    for e in entries:
        if "kids" in e:
            items = sorted(e["kids"], key=lambda x: sortkey(x["node"].name))
            if len(items) > 60 and tree == "chain":
                tree = "balanced"
            e["child"] = bst(items)

    # mini stream
    ministream = bytearray()
    minifat = []
    big = []
    minis = [e for e in rest if e["type"] == 2 and 0 < len(e["node"].data) < 4096]
    for e in rest:
        if e["type"] != 2:
            continue
        e["size"] = len(e["node"].data)
        if e["size"] >= 4096:
            big.append(e)
    alloc = []
    for e in minis:
        n = (e["size"] + 63) // 64
        alloc += [(e, k) for k in range(n)]
    order = list(range(len(alloc)))
    if holes and alloc:
        total = int(len(alloc) * (1 + holes)) + 1
        order = sorted(rng.sample(range(total), len(alloc)))
    if shuffle:
        rng.shuffle(order)
    nmini = (max(order) + 1) if alloc else 0
    minifat = [FREE] * nmini
    ministream = bytearray(rng.getrandbits(8) for _ in range(64)) * nmini
    where = {}
    for (e, k), pos in zip(alloc, order):
        where[(id(e), k)] = pos
        d = e["node"].data[k * 64:(k + 1) * 64]
        ministream[pos * 64:pos * 64 + len(d)] = d
    for e in minis:
        n = (e["size"] + 63) // 64
        e["start"] = where[(id(e), 0)]
        for k in range(n):
            minifat[where[(id(e), k)]] = where[(id(e), k + 1)] if k + 1 < n else EOC
    rootent["size"] = len(ministream)

    # sectors needed
    chains = []  # (name, [payload sectors])
    nd = (nslots * 128 + ss - 1) // ss
    chains.append(("dir", nd))
    nmf = (len(minifat) * 4 + ss - 1) // ss
    nms = (len(ministream) + ss - 1) // ss
    if nms:
        chains.append(("minifat", nmf))
        chains.append(("mini", nms))
    for e in big:
        chains.append((e, (e["size"] + ss - 1) // ss))
    ndata = sum(n for _, n in chains)
    nhole = int(ndata * holes) + (1 if holes else 0)
    # FAT/DIFAT fixpoint
    nfat = 1
    while True:
        ndf = 0 if nfat <= 109 else (nfat - 109 + per - 2) // (per - 1)
        tot = ndata + nhole + nfat + ndf + free_tail
        need = (tot + per - 1) // per
        if need <= nfat:
            break
        nfat = need
    tot = ndata + nhole + nfat + ndf
    ids = list(range(tot))
    if shuffle:
        rng.shuffle(ids)
    it = iter(ids)
    fat = [FREE] * (nfat * per)
    fatsids = [next(it) for _ in range(nfat)]
    dfsids = [next(it) for _ in range(ndf)]
    for s in fatsids:
        fat[s] = FATS
    for s in dfsids:
        fat[s] = DIF
    placed = {}
    for who, n in chains:
        ch = [next(it) for _ in range(n)]
        for a, b in zip(ch, ch[1:] + [EOC]):
            fat[a] = b
        placed[who if isinstance(who, str) else id(who)] = ch
    last = max(s for s, v in enumerate(fat) if v != FREE)
    out = bytearray((last + 2) * ss)

    def put(ch, data):
        for k, s in enumerate(ch):
            d = data[k * ss:(k + 1) * ss]
            out[(s + 1) * ss:(s + 1) * ss + len(d)] = d

    for e in big:
        e["start"] = placed[id(e)][0]
        put(placed[id(e)], e["node"].data)
    if nms:
        rootent["start"] = placed["mini"][0]
        put(placed["mini"], ministream)
        mf = minifat + [FREE] * (nmf * per - len(minifat))
        put(placed["minifat"], struct.pack("<%dI" % len(mf), *mf))
    dirdata = bytearray()
    byid = {e["id"]: e for e in entries}
    for k in range(nd * ss // 128):
        e = byid.get(k)
        if e is None:
            dirdata += struct.pack("<64sHBBIII16sIQQIQ", b"", 0, 0, 0, NOSTREAM, NOSTREAM, NOSTREAM, b"", 0, 0, 0, 0, 0)
            continue
        nm = e["node"].name.encode("utf-16le")
        dirdata += struct.pack("<64sHBBIII16sIQQIQ", nm, len(nm) + 2, e["type"], 1, e["left"], e["right"],
                               e["child"], e["node"].clsid, *e["node"].attrs, e["start"] if e["type"] != 1 else 0, e["size"])
    put(placed["dir"], dirdata)
    for k, s in enumerate(fatsids):
        out[(s + 1) * ss:(s + 2) * ss] = struct.pack("<%dI" % per, *fat[k * per:(k + 1) * per])
    rest_f = fatsids[109:]
    for k, s in enumerate(dfsids):
        part = rest_f[k * (per - 1):(k + 1) * (per - 1)]
        part += [FREE] * (per - 1 - len(part))
        part.append(dfsids[k + 1] if k + 1 < ndf else (EOC if eoc_none else FREE))
        out[(s + 1) * ss:(s + 2) * ss] = struct.pack("<%dI" % per, *part)
    none = EOC if eoc_none else FREE
    hd = MAGIC + b"\0" * 16 + struct.pack("<HHHHH6x", 0x3E, major, 0xFFFE, 9 if ss == 512 else 12, 6)
    hd += struct.pack("<IIIIIIIII", nd if major >= 4 else 0, nfat, placed["dir"][0], 0, 4096,
                      placed["minifat"][0] if nms else none, nmf if nms else 0, dfsids[0] if ndf else none, ndf)
    h109 = fatsids[:109] + [FREE] * max(0, 109 - nfat)
    hd += struct.pack("<109I", *h109)
    out[:len(hd)] = hd
    return out


def build_huge(put, nfat, free_left, lock=FREE, ss=4096, name="giant", fill=None):
    """A file whose FAT (nfat sectors) is full except the last free_left entries; one giant
    stream owns everything else.  `put(offset, bytes)` stores; untouched sectors read as zeros.
    Returns (size of the giant stream, [(offset in stream, bytes)] markers, file size)."""
    per = ss // 4
    total = nfat * per
    ndf = 0 if nfat <= 109 else (nfat - 109 + per - 2) // (per - 1)
    from array import array
    fat = array("I", [FREE]) * total
    fat[0] = EOC
    fatsids = list(range(1, 1 + nfat))
    dfs = list(range(1 + nfat, 1 + nfat + ndf))
    for s in fatsids:
        fat[s] = FATS
    for s in dfs:
        fat[s] = DIF
    first = 1 + nfat + ndf
    rl = (0x7FFFFF00 // 4096) - 1 if ss == 4096 else -1
    end = total - free_left
    chain = [s for s in range(first, end) if s != rl]
    for a, b in zip(chain, chain[1:]):
        fat[a] = b
    fat[chain[-1]] = EOC
    if 0 <= rl < total:
        fat[rl] = lock
    size = len(chain) * ss
    markers = []
    for k in sorted({0, 1, len(chain) // 3, len(chain) // 2, len(chain) - 2, len(chain) - 1}):
        d = b"MARK%08d" % k + bytes([k % 251 + 1]) * 500
        put((chain[k] + 1) * ss + 100, d)
        markers.append((k * ss + 100, d))
    put((chain[-1] + 2) * ss - 1, b"\0")
    nm = name.encode("utf-16le")
    rt = "Root Entry".encode("utf-16le")
    d = struct.pack("<64sHBBIII16sIQQIQ", rt, len(rt) + 2, 5, 1, NOSTREAM, NOSTREAM, 1, b"", 0, 0, 0, EOC, 0)
    d += struct.pack("<64sHBBIII16sIQQIQ", nm, len(nm) + 2, 2, 1, NOSTREAM, NOSTREAM, NOSTREAM, b"", 0, 0, 0,
                     chain[0], size)
    empty = struct.pack("<64sHBBIII16sIQQIQ", b"", 0, 0, 0, NOSTREAM, NOSTREAM, NOSTREAM, b"", 0, 0, 0, 0, 0)
    d += empty * ((ss - len(d)) // 128)
    put(ss, d)
    for k, s in enumerate(fatsids):
        put((s + 1) * ss, struct.pack("<%dI" % per, *fat[k * per:(k + 1) * per]))
    rest = fatsids[109:]
    for k, s in enumerate(dfs):
        part = rest[k * (per - 1):(k + 1) * (per - 1)]
        part += [FREE] * (per - 1 - len(part))
        part.append(dfs[k + 1] if k + 1 < ndf else EOC)
        put((s + 1) * ss, struct.pack("<%dI" % per, *part))
    hd = MAGIC + b"\0" * 16 + struct.pack("<HHHHH6x", 0x3E, 4 if ss == 4096 else 3, 0xFFFE, 9 if ss == 512 else 12, 6)
    hd += struct.pack("<IIIIIIIII", 1 if ss == 4096 else 0, nfat, 0, 0, 4096, EOC, 0, dfs[0] if ndf else EOC, ndf)
    hd += struct.pack("<109I", *(fatsids[:109] + [FREE] * max(0, 109 - nfat)))
    put(0, hd)
    return size, markers
