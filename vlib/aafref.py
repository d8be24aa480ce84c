"""Independent reader and validator of the AAF object layer of a compound file image.

Shares no code with aaf2: works on the tree produced by vlib.cfbref.
"""
import struct

ROOT_CLSID = "b3b398a5-1c90-11d4-8053-080036210804"
STREAM, STRONG, SVEC, SSET, WEAK, WVEC, WSET, DATA = 0x42, 0x22, 0x32, 0x3A, 0x02, 0x12, 0x1A, 0x82
SETPIDS = {}


def auid(b):
    b = bytes(b)
    x = b[3::-1] + b[5:3:-1] + b[7:5:-1] + b[8:]
    h = x.hex()
    return "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))


def ustr(b):
    return bytes(b).decode("utf-16le", "surrogatepass").split("\0")[0]


class Prop(object):
    __slots__ = ("pid", "form", "data", "name", "child", "items", "keys", "table", "keypid", "stream", "refs", "nfree")


class Obj(object):
    __slots__ = ("path", "clsid", "props", "node", "parent")

    def __repr__(self):
        return "<%s %s>" % (self.path, self.clsid)


class Aaf(object):
    def __init__(self):
        self.problems = []
        self.objs = {}
        self.table = []
        self.classes = {}
        self.types = {}

    def bad(self, kind, msg, *a):
        if len(self.problems) < 60:
            self.problems.append((kind, msg % a if a else msg))


def parse(image):
    """image: cfbref.Image with data; returns Aaf"""
    A = Aaf()
    kids = {}

    def index(node):
        d = {}
        for c in node.children:
            d[c.name] = c
        return d

    rootkids = index(image.root)
    rp = rootkids.get("referenced properties")
    if rp is None or rp.type != 2:
        A.bad("refprops", "no 'referenced properties' stream")
        return A
    d = rp.data
    if len(d) < 7:
        A.bad("refprops", "short")
        return A
    bo, npaths, npids = struct.unpack_from("<BHI", d)
    if bo != 0x4C:
        A.bad("refprops", "byte order %x", bo)
    if len(d) != 7 + 2 * npids:
        A.bad("refprops", "length %d for %d pids", len(d), npids)
    pids = struct.unpack_from("<%dH" % ((len(d) - 7) // 2), d, 7)
    cur = []
    for p in pids:
        if p:
            cur.append(p)
        else:
            A.table.append(tuple(cur))
            cur = []
    if cur or len(A.table) != npaths:
        A.bad("refprops", "%d paths declared, %d found", npaths, len(A.table))
    if len(set(A.table)) != len(A.table):
        A.bad("refprops", "duplicate paths in %r", A.table)

    stack = [(image.root, "/", None)]
    while stack:
        node, path, parent = stack.pop()
        o = Obj()
        o.path, o.node, o.parent, o.props = path, node, parent, {}
        o.clsid = auid(node.clsid)
        A.objs[path] = o
        ks = index(node)
        ps = ks.get("properties")
        if ps is None or ps.type != 2:
            A.bad("properties", "%s has no properties stream", path)
            continue
        d = ps.data
        if len(d) < 4:
            A.bad("properties", "%s: short stream (%d)", path, len(d))
            continue
        bo, ver, cnt = struct.unpack_from("<BBH", d)
        if bo != 0x4C or ver != 32:
            A.bad("properties", "%s: header %x %d", path, bo, ver)
        off = 4 + 6 * cnt
        for i in range(cnt):
            pid, form, size = struct.unpack_from("<HHH", d, 4 + 6 * i)
            p = Prop()
            p.pid, p.form, p.data = pid, form, d[off:off + size]
            off += size
            p.child = p.items = p.keys = p.stream = p.table = p.keypid = p.refs = p.name = p.nfree = None
            if len(p.data) != size:
                A.bad("properties", "%s pid %04x truncated", path, pid)
            if pid in o.props:
                A.bad("properties", "%s: duplicate pid %04x", path, pid)
            o.props[pid] = p
            base = path if path.endswith("/") else path + "/"

            def sub(name, what):
                n = ks.get(name)
                if n is None or n.type == 2:
                    A.bad("missing-object", "%s pid %04x: %s storage %r absent", path, pid, what, name)
                    return None
                stack.append((n, base + name, o))
                return base + name

            def idx(name):
                n = ks.get(name + " index")
                if n is None or n.type != 2:
                    A.bad("missing-index", "%s pid %04x: index stream %r absent", path, pid, name + " index")
                    return b""
                return n.data
            if form == STRONG:
                p.name = ustr(p.data)
                p.child = sub(p.name, "strong reference")
            elif form == SVEC:
                p.name = ustr(p.data)
                x = idx(p.name)
                p.items = []
                if len(x) >= 12:
                    n, nf, lf = struct.unpack_from("<III", x)
                    p.nfree = nf
                    if len(x) != 12 + 4 * n:
                        A.bad("index", "%s %s: %d bytes for %d entries", path, p.name, len(x), n)
                    else:
                        p.refs = struct.unpack_from("<%dI" % n, x, 12)
                        if len(set(p.refs)) != n:
                            A.bad("index", "%s %s: duplicate local keys %r", path, p.name, p.refs)
                        for k in p.refs:
                            if k >= nf:
                                A.bad("index", "%s %s: local key %d not below next free %d", path, p.name, k, nf)
                            p.items.append(sub("%s{%x}" % (p.name, k), "vector element"))
                else:
                    A.bad("index", "%s %s: short vector index", path, p.name)
            elif form == SSET:
                p.name = ustr(p.data)
                x = idx(p.name)
                p.items, p.keys = [], []
                if len(x) >= 15:
                    n, nf, lf, kp, ksz = struct.unpack_from("<IIIHB", x)
                    p.keypid = kp
                    p.nfree = nf
                    if ksz not in (16, 32) or len(x) != 15 + n * (8 + ksz):
                        A.bad("index", "%s %s: %d bytes for %d entries of %d", path, p.name, len(x), n, ksz)
                    else:
                        loc = []
                        for j in range(n):
                            lk, rc = struct.unpack_from("<II", x, 15 + j * (8 + ksz))
                            key = x[15 + j * (8 + ksz) + 8:15 + (j + 1) * (8 + ksz)]
                            loc.append(lk)
                            p.keys.append(key)
                            if lk >= nf:
                                A.bad("index", "%s %s: local key %d not below next free %d", path, p.name, lk, nf)
                            p.items.append(sub("%s{%x}" % (p.name, lk), "set element"))
                        p.refs = loc
                        if len(set(loc)) != n:
                            A.bad("index", "%s %s: duplicate local keys", path, p.name)
                        if len(set(p.keys)) != n:
                            A.bad("index", "%s %s: duplicate keys", path, p.name)
                else:
                    A.bad("index", "%s %s: short set index", path, p.name)
            elif form == WEAK:
                if len(p.data) < 5:
                    A.bad("weak", "%s pid %04x short", path, pid)
                else:
                    t, kp, ksz = struct.unpack_from("<HHB", p.data)
                    p.table, p.keypid, p.keys = t, kp, [p.data[5:]]
                    if len(p.data) != 5 + ksz or ksz not in (16, 32):
                        A.bad("weak", "%s pid %04x: key size %d in %d bytes", path, pid, ksz, len(p.data))
            elif form in (WVEC, WSET):
                p.name = ustr(p.data)
                x = idx(p.name)
                p.keys = []
                if len(x) >= 9:
                    n, t, kp, ksz = struct.unpack_from("<IHHB", x)
                    p.table, p.keypid = t, kp
                    if ksz not in (16, 32) or len(x) != 9 + n * ksz:
                        A.bad("index", "%s %s: weak index of %d bytes for %d x %d", path, p.name, len(x), n, ksz)
                    else:
                        p.keys = [x[9 + j * ksz:9 + (j + 1) * ksz] for j in range(n)]
                else:
                    A.bad("index", "%s %s: short weak index", path, p.name)
            elif form == STREAM:
                if p.data[:1] != b"\x55":
                    A.bad("stream", "%s pid %04x: prefix %r", path, pid, p.data[:1])
                p.name = ustr(p.data[1:])
                n = ks.get(p.name)
                if n is None or n.type != 2:
                    A.bad("missing-stream", "%s pid %04x: stream %r absent", path, pid, p.name)
                else:
                    p.stream = n.data
            elif form != DATA:
                A.bad("form", "%s pid %04x: stored form %02x", path, pid, form)
        if off != len(d):
            A.bad("properties", "%s: %d bytes, entries describe %d", path, len(d), off)
    return A


def target_set(A, table):
    """the strong reference property a weak reference table entry leads to"""
    o = A.objs["/"]
    path = A.table[table]
    for pid in path[:-1]:
        p = o.props.get(pid)
        if p is None or p.form != STRONG or p.child not in A.objs:
            return None
        o = A.objs[p.child]
    return o.props.get(path[-1])


TYPECLS = {"0d010101-0205-0000-060e-2b3402060101": "strong", "0d010101-0206-0000-060e-2b3402060101": "weak",
           "0d010101-0209-0000-060e-2b3402060101": "vararray", "0d010101-020a-0000-060e-2b3402060101": "set",
           "0d010101-020c-0000-060e-2b3402060101": "stream", "0d010101-020e-0000-060e-2b3402060101": "rename"}


def load_meta(A):
    md = A.objs.get("/")
    p = md.props.get(1) if md else None
    if p is None or p.child not in A.objs:
        A.bad("meta", "no MetaDictionary")
        return
    md = A.objs[p.child]
    for path in (md.props[3].items if 3 in md.props else []):
        o = A.objs.get(path)
        if o is None:
            continue
        c = dict(name=ustr(o.props[6].data), auid=auid(o.props[5].data), concrete=o.props[0x0A].data == b"\1",
                 parent=auid(o.props[8].keys[0]) if 8 in o.props else None, props={}, byname={})
        for q in (o.props[9].items if 9 in o.props else []):
            po = A.objs.get(q)
            if po is None:
                continue
            d = dict(name=ustr(po.props[6].data), auid=auid(po.props[5].data),
                     pid=struct.unpack("<H", po.props[0x0D].data)[0], type=auid(po.props[0x0B].data),
                     optional=po.props[0x0C].data == b"\1",
                     unique=0x0E in po.props and po.props[0x0E].data == b"\1")
            if d["pid"] in c["props"]:
                A.bad("meta", "class %s has two properties with pid %04x", c["name"], d["pid"])
            c["props"][d["pid"]] = d
            c["byname"][d["name"]] = d
        A.classes[c["auid"]] = c
    for path in (md.props[4].items if 4 in md.props else []):
        o = A.objs.get(path)
        if o is None:
            continue
        t = dict(name=ustr(o.props[6].data), auid=auid(o.props[5].data), cls=o.clsid, obj=o)
        A.types[t["auid"]] = t


def chain(A, clsid):
    seen = set()
    while clsid in A.classes and clsid not in seen:
        seen.add(clsid)
        c = A.classes[clsid]
        yield c
        clsid = c["parent"]


def form_of(A, t, depth=0):
    if t not in A.types or depth > 8:
        return None
    o = A.types[t]["obj"]
    k = TYPECLS.get(o.clsid)
    if k == "strong":
        return STRONG
    if k == "weak":
        return WEAK
    if k == "stream":
        return STREAM
    if k in ("vararray", "set"):
        e = auid(o.props[0x19 if k == "vararray" else 0x1A].keys[0])
        f = form_of(A, e, depth + 1)
        if f == STRONG:
            return SVEC if k == "vararray" else SSET
        if f == WEAK:
            return WVEC if k == "vararray" else WSET
    return DATA


def validate(A, required=True, foreign=False):
    """object level rules, on top of the structural ones checked while parsing"""
    if "/" not in A.objs:
        return
    load_meta(A)
    if A.objs["/"].clsid != ROOT_CLSID:
        A.bad("root", "root class id %s", A.objs["/"].clsid)
    dyn = {}
    for c in A.classes.values():
        for pid, d in c["props"].items():
            if pid >= 0x8000:
                if pid in dyn and dyn[pid] != d["auid"]:
                    A.bad("pid", "dynamic pid %04x names two properties: %s and %s", pid, dyn[pid], d["auid"])
                dyn[pid] = d["auid"]
            if d["type"] not in A.types:
                A.bad("meta", "property %s.%s has unknown type %s", c["name"], d["name"], d["type"])
        if c["parent"] not in A.classes:
            A.bad("meta", "class %s has unknown parent %s", c["name"], c["parent"])
        seen = {}
        for cc in chain(A, c["auid"]):
            for pid, d in cc["props"].items():
                if pid in seen and seen[pid] != d["auid"]:
                    A.bad("pid", "class %s: pid %04x means two properties in its chain", c["name"], pid)
                seen[pid] = d["auid"]
    forms = {}
    nweak = 0
    for path, o in A.objs.items():
        for p in o.props.values():
            if p.form == SSET:
                for key, item in zip(p.keys, p.items):
                    co = A.objs.get(item)
                    if co is None:
                        continue
                    kp = co.props.get(p.keypid)
                    if kp is None and p.keypid == 0x1b01:
                        # parameters are keyed by their definition under the definitions' pid
                        kp = co.props.get(0x4c01)
                    if kp is None:
                        A.bad("set-key", "%s: no key property %04x", item, p.keypid)
                    elif kp.form == DATA and kp.data != key or kp.form == WEAK and kp.keys[0] != key:
                        A.bad("set-key", "%s: index key %s but object says %s", item, key.hex(), kp.data.hex())
            elif p.form in (WEAK, WVEC, WSET):
                if p.table is None or p.table >= len(A.table):
                    A.bad("weak-table", "%s pid %04x: table index %r of %d", path, p.pid, p.table, len(A.table))
                    continue
                t = target_set(A, p.table)
                if t is None or t.form not in (SSET, SVEC):
                    if p.keys:
                        A.bad("weak-target", "%s pid %04x: no target property for path %r", path, p.pid,
                              A.table[p.table])
                    continue
                if t.form == SSET:
                    if t.keys and p.keypid != t.keypid and p.keys:
                        A.bad("weak-target", "%s pid %04x: key pid %04x, target keyed by %04x", path, p.pid,
                              p.keypid, t.keypid)
                    tk = set(t.keys)
                    for k in p.keys:
                        nweak += 1
                        if k not in tk:
                            # the Root class is not part of the stored model
                            if auid(k) in (ROOT_CLSID,):
                                continue
                            A.bad("weak-target", "%s pid %04x: dangling key %s (path %r)", path, p.pid,
                                  auid(k) if len(k) == 16 else k.hex(), A.table[p.table])
        if path == "/" or o.clsid == ROOT_CLSID:
            continue
        if o.clsid not in A.classes:
            A.bad("class", "%s: class id %s not in the MetaDictionary", path, o.clsid)
            continue
        defs = {}
        for c in chain(A, o.clsid):
            for pid, d in c["props"].items():
                defs.setdefault(pid, d)
        for pid, p in o.props.items():
            if pid not in defs:
                A.bad("undefined-pid", "%s (%s): pid %04x is not defined for the class", path,
                      A.classes[o.clsid]["name"], pid)
                continue
            t = defs[pid]["type"]
            if t not in forms:
                forms[t] = form_of(A, t)
            f = forms[t]
            if defs[pid]["auid"] == "06010104-060a-0000-060e-2b3401010102" and p.form in (SSET, SVEC):
                continue
            if f is not None and p.form != f:
                A.bad("form", "%s.%s stored as %02x, type says %02x", path, defs[pid]["name"], p.form, f)
        if required:
            for pid, d in defs.items():
                if not d["optional"] and pid not in o.props and d["name"] != "ObjClass":
                    A.bad("required", "%s (%s): required property %s missing", path, A.classes[o.clsid]["name"],
                          d["name"])
    A.nweak = nweak


def canon(A, path, depth=0, names=None):
    """storage-name independent nested value of an object"""
    o = A.objs.get(path)
    if o is None:
        return ("absent",)
    out = {}
    for pid, p in o.props.items():
        if p.form == DATA:
            v = bytes(p.data)
        elif p.form == STRONG:
            v = canon(A, p.child, depth + 1)
        elif p.form == SVEC:
            v = [canon(A, c, depth + 1) for c in p.items]
        elif p.form == SSET:
            v = dict((k, canon(A, c, depth + 1)) for k, c in zip(p.keys, p.items))
        elif p.form in (WEAK, WVEC, WSET):
            tb = A.table[p.table] if p.table is not None and p.table < len(A.table) else None
            ks = list(p.keys) if p.form != WSET else sorted(p.keys)
            v = ("weak", tb, p.keypid, ks)
        elif p.form == STREAM:
            v = ("stream", p.stream)
        else:
            v = ("?", p.form, bytes(p.data))
        out[pid] = (p.form, v)
    return (o.clsid, out)
