"""Specification-level model of an AAF file and a random editor that keeps it in step.

A Node describes one object: class name, property values, owned objects, stream
bytes.  Every editing step is done twice, on the library and on the nodes; canonical
forms of both are compared, in the session, after reopening, and offline on the
closed image through vlib.aafref.
"""
import datetime
import gc
import weakref
import hashlib
import random

import aaf2
from aaf2.auid import AUID
from aaf2.mobid import MobID
from aaf2.rational import AAFRational
from aaf2.exceptions import AAFAttachError, AAFPropertyError

from . import aafref, aafvals, cfbref, custom, vfs
from .harness import HarnessError, Violation, short
from .cfbworld import content

DATA, STREAM, STRONG, SVEC, SSET, WEAK, WVEC, WSET = 0x82, 0x42, 0x22, 0x32, 0x3A, 0x02, 0x12, 0x1A
PARAMS_AUID = "06010104-060a-0000-060e-2b3401010102"
NOGEN = {"Header", "Dictionary", "ContentStorage", "MetaDictionary", "Root"}
METACLS = {"MetaDefinition"}
# the factory knows definitions under the short names of its helper classes
FACTORY = {k + "Definition": k + "Def" for k in ("Data", "Operation", "Parameter", "Plugin", "Container",
                                                  "Interpolation", "TaggedValue")}
PIDSET = {0x2603: "OperationDefinitions", 0x2604: "ParameterDefinitions", 0x2605: "DataDefinitions",
          0x2606: "PluginDefinitions", 0x2607: "CodecDefinitions", 0x2608: "ContainerDefinitions",
          0x2609: "InterpolationDefinitions", 0x260a: "KLVDataDefinitions", 0x260b: "TaggedValueDefinitions"}


def cv(v):
    """canonical, comparable form of a plain value"""
    if isinstance(v, bool):
        return ("bool", v)
    if isinstance(v, AAFRational):
        return ("rat", v.numerator, v.denominator)
    if isinstance(v, (AUID, MobID)):
        return ("id", bytes(v.bytes_le))
    if isinstance(v, (set, frozenset)):
        return ("set", sorted((cv(x) for x in v), key=repr))
    if isinstance(v, (list, tuple)):
        return ("seq", [cv(x) for x in v])
    if isinstance(v, dict):
        return ("rec", sorted((k, cv(x)) for k, x in v.items()))
    if isinstance(v, (datetime.datetime, datetime.date, datetime.time)):
        return (type(v).__name__, v.isoformat())
    if isinstance(v, (bytes, bytearray)):
        return ("bytes", bytes(v))
    if v is None or isinstance(v, (int, str)):
        return v
    if hasattr(v, "hex") and hasattr(v, "bytes_le"):
        return ("id", AUID(str(v)).bytes_le)
    return ("?", repr(v))


def keyb(k):
    return bytes(k.bytes_le)


class Val(object):
    __slots__ = ("kind", "v", "enc")

    def __init__(self, kind, v, enc=None):
        self.kind, self.v, self.enc = kind, v, enc

    def children(self):
        if self.kind == "strong":
            return [self.v]
        if self.kind == "vec":
            return self.v
        if self.kind == "set":
            return list(self.v.values())
        return ()


class Node(object):
    __slots__ = ("cls", "props", "parent", "prop", "obj", "__weakref__")

    def __init__(self, cls):
        self.cls = cls
        self.props = {}
        self.parent = None
        self.prop = None
        self.obj = None

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            for v in n.props.values():
                st.extend(v.children())

    def root(self):
        n = self
        while n.parent is not None:
            n = n.parent
        return n

    def canon(self):
        return (self.cls, {k: vcanon(v) for k, v in self.props.items()})

    def __repr__(self):
        return "<%s#%x>" % (self.cls, id(self) & 0xffff)


def vcanon(v):
    if v.kind == "strong":
        return ("strong", v.v.canon())
    if v.kind == "vec":
        return ("vec", [c.canon() for c in v.v])
    if v.kind == "set":
        return ("set", {k: c.canon() for k, c in v.v.items()})
    if v.kind == "data":
        return ("data", cv(v.v))
    if v.kind == "raw":
        return ("raw", v.v)
    if v.kind == "weak":
        return ("weak", v.v)
    if v.kind == "wvec":
        return ("wvec", list(v.v))
    if v.kind == "wset":
        return ("wset", sorted(v.v))
    if v.kind == "stream":
        return ("stream", bytes(v.v))
    raise HarnessError(v.kind)


def diff(a, b, path=""):
    """first difference of two canonical forms: (path, got, expected) or None"""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, path)
            if d:
                return d
        return (path, a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        for k in b:
            if k not in a:
                return ("%s.%s" % (path, k if isinstance(k, str) else k.hex()), "absent", b[k])
        for k in a:
            if k not in b:
                return ("%s.%s" % (path, k if isinstance(k, str) else k.hex()), a[k], "absent")
        for k in b:
            d = diff(a[k], b[k], "%s.%s" % (path, k if isinstance(k, str) else k.hex()))
            if d:
                return d
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
    return (path, a, b)


def is_basic(p):
    return p.format == DATA


def pkey(o):
    """unique key bytes of a definition, mob or meta definition, read from the object"""
    return keyb(o.unique_key)


def snap_prop(p, deep=True):
    """canonical form of one property, through the public API"""
    f = p.format
    if f == DATA:
        td = p.typedef
        if td is None or not aafvals.supported(td):
            return ("raw", bytes(p.data))
        return ("data", cv(p.value))
    if f == STRONG:
        return ("strong", snap(p.value)) if deep else ("strong", p.value)
    if f == SVEC:
        items = list(p)
        return ("vec", [snap(o) for o in items])
    if f == SSET:
        return ("set", {keyb(k): snap(o) for k, o in p.items()})
    if f == WEAK:
        return ("weak", pkey(p.value))
    if f in (WVEC, WSET):
        ks = [pkey(o) for o in p.value]
        return ("wvec", ks) if f == WVEC else ("wset", sorted(ks))
    if f == STREAM:
        return ("stream", p.open("r").read())
    return ("raw", bytes(p.data))


def snap(obj):
    if obj is None:
        return ("None", {})
    cd = obj.classdef
    out = {}
    for p in obj.properties():
        name = p.name
        if name in out:
            return ("duplicate property %s" % name, {})
        out[name] = snap_prop(p)
    return (cd.class_name if cd is not None else str(obj.class_id), out)


class Model(object):
    """the classes an open file knows, as plain data"""

    def __init__(self, f):
        self.classes = {}
        for c in f.metadict["ClassDefinitions"].value:
            self.classes[c.class_name] = c
        self.parents = {}
        for n, c in self.classes.items():
            p = c.parent
            self.parents[n] = p.class_name if p is not None and p.class_name != n else None
        self._chain = {}
        self._props = {}
        self._concrete = {}
        self.height_ = {}

    def chain(self, n):
        r = self._chain.get(n)
        if r is None:
            r, x = [], n
            while x in self.classes and x not in r:
                r.append(x)
                x = self.parents[x]
            self._chain[n] = r
        return r

    def props(self, n):
        r = self._props.get(n)
        if r is None:
            r = {}
            for c in self.chain(n):
                for pd in self.classes[c].propertydefs:
                    if pd.property_name != "ObjClass":
                        r[pd.property_name] = Pd(pd)
            self._props[n] = r
        return r

    def concrete(self, base):
        """all concrete classes derived from base that may be created"""
        r = self._concrete.get(base)
        if r is None:
            r = sorted(n for n, c in self.classes.items() if c.concrete and base in self.chain(n) and
                       n not in NOGEN and "MetaDefinition" not in self.chain(n))
            self._concrete[base] = r
        return r

    def height(self, n, seen=()):
        """depth of objects needed below n for its required single references"""
        r = self.height_.get(n)
        if r is not None:
            return r
        if n in seen:
            return 99
        h = 0
        for pd in self.props(n).values():
            if pd.optional:
                continue
            if pd.form == STRONG:
                c = [self.height(k, seen + (n,)) for k in self.concrete(pd.ref)]
                h = max(h, 1 + min(c or [99]))
            elif pd.form == DATA and not pd.gen:
                h = 99
        if not seen:
            self.height_[n] = h
        return h


class Pd(object):
    """plain description of a property definition"""

    def __init__(self, pd):
        self.name = pd.property_name
        self.pid = pd.pid
        self.optional = pd.optional
        self.unique = bool(pd.unique)
        self.auid = str(pd.auid)
        self.form = pd.store_format
        self.td = pd.typedef
        self.ref = None
        self.path = None
        if self.auid == PARAMS_AUID:
            self.form = SSET
        td = self.td
        if self.form in (STRONG, WEAK):
            self.ref = td.ref_classdef.class_name
        elif self.form in (SVEC, WVEC, WSET):
            self.ref = td.element_typedef.ref_classdef.class_name
        elif self.form == SSET:
            self.ref = td.element_typedef.ref_classdef.class_name
        if self.form == WEAK:
            self.path = list(td.pid_path)
        elif self.form in (WVEC, WSET):
            self.path = list(td.element_typedef.pid_path)
        self.gen = self.form == DATA and aafvals.supported(td)


KIND = {DATA: "data", STREAM: "stream", STRONG: "strong", SVEC: "vec", SSET: "set", WEAK: "weak", WVEC: "wvec",
        WSET: "wset"}

OPS = dict(addmob=6, addess=2, rmmob=2, setdata=20, delprop=5, setstrong=8, vec=14, set=5, weak=5, warr=4, stream=6,
           rekey=4, reuse=6, copy=3, drop=5, save=3, reopen=2, adddef=2, addid=1, primary=0.5, verify=3, readback=3)


class AWorld(object):
    def __init__(self, ctx, weights=None, sector=None, extensions=None, maxdepth=3, optional=0.35, tag="w",
                 seedfile=None, checkdeep=True, setup=None):
        self.ctx = ctx
        self.rng = ctx.rng
        self.w = dict(OPS)
        self.w.update(weights or {})
        self.maxdepth = maxdepth
        self.optional = optional
        self.path = vfs.new("%s-%d.aaf" % (tag, ctx.index))
        self.tf = vfs.get(self.path)
        self.sector = sector or self.rng.choice([512, 4096, 4096])
        self.ext = self.rng.random() < 0.6 if extensions is None else extensions
        self.pool = []          # detached root nodes (with handles)
        self.targets = {}       # further weak reference targets: path -> (owner, set, class)
        self.mobids = [MobID(bytes_le=aafvals.rbytes(self.rng, 32)) for _ in range(8)]
        self.tiny = self.rng.random() < 0.3
        self.foreign = None
        self.nops = 0
        if seedfile is not None:
            self.tf._put(0, seedfile)
            self.open("rb+")
        else:
            self.f = aaf2.open(self.path, "w", sector_size=self.sector, extensions=self.ext)
            self.shrink_caches()
            if setup is not None:
                t = setup(self.f)
                if isinstance(t, dict):
                    self.targets = t
            self.bind()
            self.root = self.absorb(self.f.header)
        ctx.log("world", self.sector, self.ext)

    # --- model access -----------------------------------------------------
    def bind(self):
        self.model = Model(self.f)

    def open(self, mode):
        self.f = aaf2.open(self.path, mode, extensions=self.ext)
        self.shrink_caches()
        self.bind()

    def absorb(self, obj):
        n = Node(obj.classdef.class_name)
        n.obj = obj
        self.absorb_props(n)
        return n

    def absorb_props(self, n):
        for p in n.obj.properties():
            n.props[p.name] = self.absorb_prop(n, p)

    def absorb_prop(self, n, p):
        f = p.format
        if f == STRONG:
            c = self.absorb(p.value)
            c.parent, c.prop = n, p.name
            return Val("strong", c)
        if f == SVEC:
            cs = [self.absorb(o) for o in p]
            for c in cs:
                c.parent, c.prop = n, p.name
            return Val("vec", cs)
        if f == SSET:
            d = {}
            for k, o in p.items():
                c = self.absorb(o)
                c.parent, c.prop = n, p.name
                d[keyb(k)] = c
            return Val("set", d)
        kind, v = snap_prop(p)
        if kind == "data":
            return Val("data", p.value)
        if kind == "stream":
            v = bytearray(v)
        return Val(kind, v)

    def obj(self, n, keep=None):
        """the library object of a node, through its owner"""
        if n.obj is not None:
            return n.obj
        if n.parent is None:
            if n is self.root:
                o = self.f.header
            else:
                raise HarnessError("lost handle")
        else:
            po = self.obj(n.parent)
            v = n.parent.props[n.prop]
            p = po[n.prop]
            if v.kind == "strong":
                o = p.value
            elif v.kind == "vec":
                o = p[[id(x) for x in v.v].index(id(n))]
            else:
                k = [k for k, x in v.v.items() if x is n][0]
                o = p.get(self.mkkey(k))
            self.ctx.check(o is not None, "object-lost", lambda: "%r owned by %r.%s is not there" % (
                n, n.parent, n.prop))
        if keep if keep is not None else self.rng.random() < 0.7:
            n.obj = o
        return o

    @staticmethod
    def mkkey(k):
        return AUID(bytes_le=k) if len(k) == 16 else MobID(bytes_le=k)

    def attached(self, n):
        return n.root() is self.root

    def nodes(self, detached=True, defs=False):
        out = []
        for r in [self.root] + (self.pool if detached else []):
            for n in r.walk():
                if not defs and "DefinitionObject" in self.model.chain(n.cls) and self.rng.random() < 0.9:
                    continue
                out.append(n)
        return out

    # --- generation ---------------------------------------------------------
    def defset(self, path):
        """(set name, list of target objects, key bytes) for a weak reference path"""
        if path == [1, 3]:
            return [(keyb(c.auid), c) for c in self.f.metadict["ClassDefinitions"].value]
        if path == [1, 4]:
            return [(keyb(c.auid), c) for c in self.f.metadict["TypeDefinitions"].value]
        if path[-1] == 0x1901:
            if not self.content().props["Mobs"].v:
                self.put_set(self.content(), "Mobs", self.make("MasterMob", 1))
            return [(k, self.obj(n, False)) for k, n in self.content().props["Mobs"].v.items()]
        if tuple(path) in self.targets:
            owner, name, cls = self.targets[tuple(path)]
            owner = self.root if owner == "Header" else self.content()
            while name not in owner.props or not owner.props[name].v or self.rng.random() < 0.1:
                self.put_set(owner, name, self.make(cls, 1))
            return [(k, n) for k, n in owner.props[name].v.items()]
        name = PIDSET[path[-1]]
        d = self.dict()
        if name not in d.props or not d.props[name].v:
            self.adddef(name)
        return [(k, n) for k, n in d.props[name].v.items()]

    def dict(self):
        return self.root.props["Dictionary"].v

    def content(self):
        return self.root.props["Content"].v

    def pick_target(self, path):
        s = self.defset(path)
        k, o = self.rng.choice(s)
        if isinstance(o, Node):
            o = self.obj(o)
        return k, o

    DEFCLS = {v: v[:-1].replace("KLVData", "KLVData") for v in PIDSET.values()}

    def adddef(self, name):
        n = self.make(self.DEFCLS[name], 1)
        o = n.obj
        k = keyb(n.props["Identification"].v)
        d = self.dict()
        do = self.obj(d)
        if name in ("PluginDefinitions", "KLVDataDefinitions") or self.rng.random() < 0.5:
            do[name].append(o)
        else:
            do.register_def(o)
        if name not in d.props:
            d.props[name] = Val("set", {})
        d.props[name].v[k] = n
        n.parent, n.prop = d, name
        self.ctx.log("adddef", name, k.hex())
        self.ctx.note("defs_added")
        return n

    def create(self, cls):
        f = self.f
        if cls == "OperationGroup":
            k, o = self.pick_target([2, 15108, 9731])
            return f.create.from_name(cls, o)
        if cls == "CodecDefinition":
            return f.create.CodecDef(f.dictionary)
        if cls in FACTORY:
            return f.create.from_name(FACTORY[cls])
        return f.create.from_name(cls)

    def pick_class(self, base, depth):
        c = self.model.concrete(base)
        if not c:
            return None
        if depth >= self.maxdepth:
            h = {k: self.model.height(k) for k in c}
            m = min(h.values())
            if m >= 90:
                return None
            c = [k for k in c if h[k] == m]
        else:
            c = [k for k in c if self.model.height(k) < 90]
        return self.rng.choice(c) if c else None

    def make(self, cls, depth=0):
        o = self.create(cls)
        n = Node(cls)
        n.obj = o
        self.absorb_props(n)
        for pd in self.model.props(cls).values():
            if pd.name in n.props and self.rng.random() < 0.6 and not pd.unique:
                continue
            if pd.optional and self.rng.random() > self.optional / (1 + depth):
                continue
            self.set_prop(n, pd, depth)
        return n

    def can_set(self, n, pd):
        if pd.form == DATA:
            return pd.gen
        if pd.form in (STRONG, SVEC):
            return bool(self.model.concrete(pd.ref))
        if pd.form == SSET:
            return bool(self.model.concrete(pd.ref)) and any(k in self.model.chain(pd.ref) for k in custom.KEYED)
        if pd.form in (WEAK, WVEC, WSET):
            return pd.path[0] in (1, 2) and not (pd.path[-1] == 0x1901)
        return pd.form == STREAM

    def set_prop(self, n, pd, depth):
        """give a fresh value to a property of a detached or attached node; False if not possible"""
        rng = self.rng
        o = self.obj(n)
        if not self.can_set(n, pd):
            return False
        if pd.form == DATA:
            if pd.unique:
                if n.parent is not None:
                    return False
                v = rng.choice(self.mobids) if rng.random() < 0.15 and pd.name == "MobID" else None
                if v is None:
                    v = aafvals.rmobid(rng) if pd.name == "MobID" else aafvals.rauid(rng)
                e, b = v, bytes(v.bytes_le)
                v = v.__class__(bytes_le=b)
                e = v.__class__(bytes_le=b)
            else:
                v, e, b = aafvals.gen(rng, pd.td)
                if b is not None and aafvals.enclen(b) > 60000:
                    return False
            o[pd.name].value = v
            n.props[pd.name] = Val("data", e, b)
        elif pd.form == STRONG:
            cls = self.pick_class(pd.ref, depth + 1)
            if cls is None:
                return False
            c = self.make(cls, depth + 1)
            self.release(n, pd.name)
            o[pd.name].value = c.obj
            n.props[pd.name] = Val("strong", c)
            c.parent, c.prop = n, pd.name
        elif pd.form == SVEC:
            k = rng.choice([0, 1, 2, 4]) if depth < self.maxdepth else 0
            items = []
            for _ in range(k):
                cls = self.pick_class(pd.ref, depth + 1)
                if cls is not None:
                    items.append(self.make(cls, depth + 1))
            self.release(n, pd.name)
            vals = [c.obj for c in items]
            r = rng.random()
            if r < 0.3:
                vals = tuple(vals)
            elif r < 0.5:
                vals = iter(vals)
            o[pd.name].value = vals
            n.props[pd.name] = Val("vec", items)
            for c in items:
                c.parent, c.prop = n, pd.name
        elif pd.form == SSET:
            return self.set_set(n, pd, depth)
        elif pd.form == WEAK:
            k, t = self.pick_target(pd.path)
            o[pd.name].value = t
            n.props[pd.name] = Val("weak", k)
        elif pd.form in (WVEC, WSET):
            ts = [self.pick_target(pd.path) for _ in range(rng.choice([0, 1, 2, 3]))]
            if pd.form == WSET:
                ts = list(dict(ts).items())
            o[pd.name].value = [t for k, t in ts]
            n.props[pd.name] = Val("wvec" if pd.form == WVEC else "wset", [k for k, t in ts])
        elif pd.form == STREAM:
            d = self.blob()
            s = o[pd.name].open("w")
            s.write(d)
            n.props[pd.name] = Val("stream", bytearray(d))
        return True

    def blob(self):
        return content(self.rng, self.rng.choice([0, 1, 63, 64, 500, 4095, 4096, 4097, 9000, 20000]))

    def set_set(self, n, pd, depth):
        o = self.obj(n)
        rng = self.rng
        items = {}
        for _ in range(rng.choice([0, 1, 2]) if depth < self.maxdepth else 0):
            c = self.make_member(n, pd, depth)
            if c is None:
                continue
            items[self.key_of(c)] = c
        self.release(n, pd.name)
        o[pd.name].value = [c.obj for c in items.values()]
        n.props[pd.name] = Val("set", items)
        for c in items.values():
            c.parent, c.prop = n, pd.name
        return True

    def make_member(self, n, pd, depth):
        """a new object fit for a keyed set"""
        cls = self.pick_class(pd.ref, depth + 1)
        if cls is None:
            return None
        return self.make(cls, depth + 1)

    def key_of(self, n):
        for k in ("MobID", "Identification", "Definition"):
            if k in n.props:
                v = n.props[k]
                return bytes(v.v.bytes_le) if v.kind == "data" else v.v
        raise HarnessError("no key in %s" % n.cls)

    # --- ownership --------------------------------------------------------------
    def reload(self, n):
        """now and then: only the members of n stay alive, n itself is dropped and read again"""
        if n.parent is None or not self.attached(n) or self.rng.random() > 0.12:
            return
        for v in n.props.values():
            for c in v.children():
                if self.rng.random() < 0.7:
                    self.obj(c, True)
        self.f.save()
        wr = weakref.ref(n.obj) if n.obj is not None else None
        a = n
        while a.parent is not None:
            a.obj = None
            a = a.parent
        self.purge()
        gc.collect()
        self.ctx.note("reloads_tried")
        if wr is None or wr() is None:
            self.ctx.note("reloaded")
        self.ctx.log("reload", n.cls)

    def release(self, n, name):
        """children of n.name become detached roots"""
        v = n.props.get(name)
        if v is None:
            return
        for c in v.children():
            self.to_pool(c)

    def to_pool(self, c):
        self.obj(c, True)
        c.parent = c.prop = None
        self.pool.append(c)
        self.ctx.note("released")

    def trim_pool(self):
        while len(self.pool) > 12:
            self.pool.pop(self.rng.randrange(len(self.pool)))

    def trim_keep(self, n):
        """trim the pool but keep n's root"""
        r = n.root()
        while len(self.pool) > 12:
            i = self.rng.randrange(len(self.pool))
            if self.pool[i] is not r:
                self.pool.pop(i)

    def own(self, c, n, name):
        if c in self.pool:
            self.pool.remove(c)
        c.parent, c.prop = n, name

    def fits(self, base):
        return [c for c in self.pool if base in self.model.chain(c.cls)]

    def weak_uses(self, key):
        for r in [self.root] + self.pool:
            for n in r.walk():
                for v in n.props.values():
                    if v.kind == "weak" and v.v == key or v.kind in ("wvec", "wset") and key in v.v:
                        return True
        return False

    # --- checks ------------------------------------------------------------------
    def verify(self, n, what="object", sig="graph"):
        got = snap(self.obj(n))
        want = n.canon()
        self.ctx.note("oracle_checks")
        self.ctx.note("objects_compared")
        if got != want:
            d = diff(got, want, n.cls)
            raise Violation(sig, "%s: at %s got %s, expected %s" % (what, d[0], short(d[1]), short(d[2])))

    def verify_all(self, what, sig="graph"):
        self.verify(self.root, what, sig)
        for c in self.pool:
            self.verify(c, what + " (released %s)" % c.cls, sig)
        self.identity()
        self.ctx.note("graphs_compared")

    def identity(self):
        """held handles and what the owner yields are the same objects"""
        for r in [self.root] + self.pool:
            for n in r.walk():
                if n.obj is None:
                    continue
                for name, v in n.props.items():
                    if v.kind in ("strong", "vec", "set") and any(c.obj is not None for c in v.children()):
                        p = n.obj[name]
                        if v.kind == "strong":
                            got = [(p.value, v.v)]
                        elif v.kind == "vec":
                            got = list(zip(list(p), v.v))
                        else:
                            got = [(p.get(self.mkkey(k)), c) for k, c in v.v.items()]
                        for o, c in got:
                            if c.obj is not None:
                                self.ctx.check(o is c.obj, "identity", lambda: "%r.%s yields another object for %r "
                                               "than the one held" % (n, name, c))

    def judge(self, required=True):
        """offline: the closed image, by the independent readers"""
        im = cfbref.parse(self.tf)
        self.ctx.check(not im.problems, "image", lambda: "; ".join("%s: %s" % p for p in im.problems[:4]))
        A = aafref.parse(im)
        aafref.validate(A, required=required)
        self.ctx.check(not A.problems, "aaf-image", lambda: "; ".join("%s: %s" % p for p in A.problems[:4]))
        hp = A.objs["/"].props[2].child
        d = self.offline(A, hp, self.root, "Header")
        self.ctx.check(d is None, "stored-graph", lambda: "image: %s" % (d,))
        self.ctx.note("images_judged")
        self.ctx.note("weakrefs_resolved", A.nweak)
        return A

    def offline(self, A, path, n, where):
        o = A.objs.get(path)
        if o is None:
            return "%s: no object at %s" % (where, path)
        self.ctx.note("stored_objects_compared")
        c = A.classes.get(o.clsid)
        if c is None or c["name"] != n.cls:
            return "%s: stored class %s, expected %s" % (where, c and c["name"], n.cls)
        by = {}
        for cc in aafref.chain(A, o.clsid):
            for pid, d in cc["props"].items():
                if pid in o.props:
                    by[d["name"]] = o.props[pid]
        if set(by) != set(n.props):
            return "%s: stored properties %s, expected %s" % (where, sorted(set(by) - set(n.props)),
                                                              sorted(set(n.props) - set(by)))
        for name, v in n.props.items():
            p = by[name]
            w = "%s.%s" % (where, name)
            if v.kind == "data":
                if v.enc is not None and not aafvals.enceq(bytes(p.data), v.enc):
                    return "%s: stored %s, expected %s" % (w, short(p.data), short(v.enc))
            elif v.kind == "raw":
                if bytes(p.data) != v.v:
                    return "%s: stored raw data changed" % w
            elif v.kind == "strong":
                d = self.offline(A, p.child, v.v, w)
                if d:
                    return d
            elif v.kind == "vec":
                if p.items is None or len(p.items) != len(v.v):
                    return "%s: %s items stored, expected %d" % (w, p.items and len(p.items), len(v.v))
                for i, (q, c) in enumerate(zip(p.items, v.v)):
                    d = self.offline(A, q, c, "%s[%d]" % (w, i))
                    if d:
                        return d
            elif v.kind == "set":
                if p.keys is None or set(p.keys) != set(v.v):
                    return "%s: stored keys differ" % w
                for k, q in zip(p.keys, p.items):
                    d = self.offline(A, q, v.v[k], "%s{%s}" % (w, k.hex()[:8]))
                    if d:
                        return d
            elif v.kind == "weak":
                if p.keys != [v.v]:
                    return "%s: stored weak key %s, expected %s" % (w, p.keys[0].hex(), v.v.hex())
            elif v.kind in ("wvec", "wset"):
                if (list(p.keys) if v.kind == "wvec" else sorted(p.keys)) != (
                        list(v.v) if v.kind == "wvec" else sorted(v.v)):
                    return "%s: stored weak keys differ" % w
            elif v.kind == "stream":
                if bytes(p.stream or b"") != bytes(v.v):
                    return "%s: stored stream %s, expected %s" % (w, short(p.stream), short(v.v))
        return None

    # --- editing steps ----------------------------------------------------------
    def step(self):
        names = sorted(self.w)
        op = self.rng.choices(names, [self.w[k] for k in names])[0]
        self.nops += 1
        r = getattr(self, "op_" + op)()
        if r is not False:
            self.ctx.note("op_" + op)
        self.trim_pool()

    def run(self, n):
        for _ in range(n):
            self.step()

    def new_unique_mobid(self):
        return MobID(bytes_le=aafvals.rbytes(self.rng, 32))

    def op_addmob(self):
        cands = self.fits("Mob")
        c = self.rng.choice(cands) if cands and self.rng.random() < 0.5 else self.make(
            self.pick_class("Mob", 0), 0)
        self.put_set(self.content(), "Mobs", c)

    def op_addess(self):
        cands = self.fits("EssenceData")
        c = self.rng.choice(cands) if cands and self.rng.random() < 0.4 else self.make("EssenceData", 0)
        self.put_set(self.content(), "EssenceData", c)

    def put_set(self, n, name, c):
        """append c to the keyed set n.name; an object with the same key is replaced"""
        k = self.key_of(c)
        v = n.props.get(name)
        old = v.v.get(k) if v is not None else None
        if old is not None and self.weak_uses(k) and old is not c:
            pass
        p = self.obj(n)[name]
        self.ctx.log("put", name, c.cls, k.hex()[:12], old is not None)
        if old is not None:
            self.obj(old, self.rng.random() < 0.5)
        held = old is not None and old.obj is not None
        r = self.rng.random()
        if r < 0.5:
            p.append(c.obj)
        elif r < 0.8:
            p.extend([c.obj])
        else:
            p.extend(iter((c.obj,)))
        if v is None:
            v = n.props[name] = Val("set", {})
        if old is not None:
            self.ctx.note("set_replacements")
            old.parent = old.prop = None
            if held:
                self.pool.append(old)
        v.v[k] = c
        self.own(c, n, name)

    def op_rmmob(self):
        c = self.content()
        name = self.rng.choice(["Mobs", "Mobs", "EssenceData"])
        v = c.props.get(name)
        if v is None or not v.v:
            return False
        k = self.rng.choice(sorted(v.v))
        n = v.v[k]
        if self.weak_uses(k):
            return False
        self.ctx.log("pop", name, k.hex()[:12])
        held = self.obj(n, True) if self.rng.random() < 0.5 else n.obj
        got = self.obj(c)[name].pop(self.mkkey(k))
        if held is not None:
            self.ctx.check(got is held, "identity", "pop returned another object than the one held")
        n.obj = got
        del v.v[k]
        n.parent = n.prop = None
        self.pool.append(n)

    def pick_node(self, pred=lambda n: True):
        ns = [n for n in self.nodes() if pred(n)]
        return self.rng.choice(ns) if ns else None

    def pick_prop(self, forms, present=None):
        n = self.pick_node()
        if n is None:
            return None, None
        ps = [pd for pd in self.model.props(n.cls).values() if pd.form in forms and self.can_set(n, pd) and
              not (pd.unique and n.parent is not None) and
              (present is None or (pd.name in n.props) == present) and not self.frozen(n, pd)]
        if not ps:
            return None, None
        return n, self.rng.choice(sorted(ps, key=lambda p: p.name))

    def frozen(self, n, pd):
        if pd.name == "Definition" and n.parent is not None and n.parent.props[n.prop].kind == "set":
            return True         # the key of a set member
        if n.cls in NOGEN and pd.form in (STRONG, SSET):
            return True
        if pd.name == "Name" and "DefinitionObject" in self.model.chain(n.cls):
            return True         # looked up by name when components are created
        if n is self.root and pd.name in ("PrimaryMob", "ByteOrder"):
            return True
        return False

    def op_setdata(self):
        for _ in range(4):
            n, pd = self.pick_prop((DATA,))
            if n is not None:
                break
        if n is None:
            return False
        self.ctx.log("set", n.cls, pd.name)
        if not self.set_prop(n, pd, 1):
            return False
        self.distinct(n, pd)
        got = self.obj(n)[pd.name].value
        self.ctx.check(aafvals.same(got, n.props[pd.name].v), "value", lambda: "%s.%s reads %s, expected %s" % (
            n.cls, pd.name, short(got), short(n.props[pd.name].v)))

    def distinct(self, n, pd):
        self.ctx.distinct((n.cls, pd.name, n.props.get(pd.name) and n.props[pd.name].kind, self.attached(n)))

    def op_readback(self):
        n = self.pick_node()
        self.verify(n, "node")

    def op_delprop(self):
        for _ in range(6):
            n = self.pick_node(lambda n: bool(n.props))
            names = [k for k in sorted(n.props) if self.model.props(n.cls).get(k) is not None and
                     self.model.props(n.cls)[k].optional and not self.model.props(n.cls)[k].unique and
                     not self.frozen(n, self.model.props(n.cls)[k]) and n.props[k].kind != "stream" and
                     not (n.props[k].kind == "set" and any(self.weak_uses(x) for x in n.props[k].v))]
            if names:
                break
        else:
            return False
        name = self.rng.choice(names)
        o = self.obj(n)
        self.ctx.log("delete", n.cls, name, n.props[name].kind)
        self.release(n, name)
        if self.rng.random() < 0.5:
            del o[name]
        else:
            o[name].value = None
        del n.props[name]
        self.ctx.check(name not in o, "deleted", lambda: "%s.%s is still there" % (n.cls, name))

    def op_setstrong(self):
        for _ in range(6):
            n, pd = self.pick_prop((STRONG,))
            if n is not None:
                break
        else:
            return False
        cands = [c for c in self.fits(pd.ref) if c is not n.root()]
        self.distinct(n, pd)
        self.reload(n)
        if cands and self.rng.random() < 0.6:
            c = self.rng.choice(cands)
            self.ctx.log("strong reuse", n.cls, pd.name, c.cls)
            self.release(n, pd.name)
            self.obj(n)[pd.name].value = c.obj
            n.props[pd.name] = Val("strong", c)
            self.own(c, n, pd.name)
        else:
            self.ctx.log("strong new", n.cls, pd.name)
            self.set_prop(n, pd, 1)

    def op_vec(self):
        for _ in range(8):
            n, pd = self.pick_prop((SVEC,))
            if n is not None:
                break
        else:
            return False
        self.vec_step(n, pd)

    def vec_step(self, n, pd):
        rng = self.rng
        self.distinct(n, pd)
        self.reload(n)
        o = self.obj(n)
        p = o[pd.name]
        v = n.props.get(pd.name)
        cur = v.v if v is not None else []

        def fresh(k=1):
            out = []
            for _ in range(k):
                cands = [c for c in self.fits(pd.ref) if c is not n.root() and c not in out]
                if cands and rng.random() < 0.4:
                    out.append(rng.choice(cands))
                else:
                    cls = self.pick_class(pd.ref, 2)
                    if cls is not None:
                        out.append(self.make(cls, 2))
            return out
        op = rng.choice(["append", "append", "extend", "insert", "insert", "pop", "pop", "setitem", "clear", "assign",
                         "reorder"])
        self.ctx.log("vec", n.cls, pd.name, op, len(cur))
        if op == "append":
            c = fresh()
            if c:
                p.append(c[0].obj)
        elif op == "extend":
            c = fresh(rng.choice([0, 2, 3]))
            p.extend(iter([x.obj for x in c]) if rng.random() < 0.5 else [x.obj for x in c])
        elif op == "insert":
            c = fresh()
            i = rng.randint(-len(cur) - 2, len(cur) + 2)
            if c:
                p.insert(i, c[0].obj)
        elif op == "pop":
            if not cur:
                return False
            i = rng.randint(-len(cur), len(cur) - 1)
            held = cur[i].obj
            got = p.pop(i)
            if held is not None:
                self.ctx.check(got is held, "identity", "pop(%d) returned another object" % i)
            x = cur[i]
            x.obj = got
            new = list(cur)
            del new[i]
            self.to_pool(x)
            n.props[pd.name] = Val("vec", new)
            self.after_vec(n, pd)
            return
        elif op == "setitem":
            if not cur:
                return False
            c = fresh()
            if not c:
                return False
            i = rng.randint(-len(cur), len(cur) - 1)
            self.obj(cur[i], True)
            p[i] = c[0].obj
            new = list(cur)
            old = new[i]
            new[i] = c[0]
            self.to_pool(old)
            n.props[pd.name] = Val("vec", new)
            self.own(c[0], n, pd.name)
            self.after_vec(n, pd)
            return
        elif op == "clear":
            for x in cur:
                self.to_pool(x)
            p.clear()
            if v is not None:
                n.props[pd.name] = Val("vec", [])
            self.after_vec(n, pd)
            return
        elif op == "assign":
            c = fresh(rng.choice([0, 1, 3]))
            for x in cur:
                self.to_pool(x)
            p.value = [x.obj for x in c]
            n.props[pd.name] = Val("vec", c)
            for x in c:
                self.own(x, n, pd.name)
            self.after_vec(n, pd)
            return
        elif op == "reorder":
            # the object keeps its members, in another order
            objs = [self.obj(x, True) for x in cur]
            perm = list(range(len(cur)))
            rng.shuffle(perm)
            p.value = [objs[i] for i in perm]
            n.props[pd.name] = Val("vec", [cur[i] for i in perm])
            self.after_vec(n, pd)
            return
        new = list(cur)
        if op in ("append", "extend"):
            new.extend(c)
        elif c:
            new.insert(i, c[0])
        if c or v is not None or op == "extend":
            n.props[pd.name] = Val("vec", new)
        for x in c:
            self.own(x, n, pd.name)
        self.after_vec(n, pd)

    def after_vec(self, n, pd):
        self.ctx.note("vector_ops")
        v = n.props.get(pd.name)
        p = self.obj(n)[pd.name]
        self.ctx.eq(len(p), len(v.v) if v else 0, "vector", "length of %s.%s" % (n.cls, pd.name))
        for i, c in enumerate(v.v if v else []):
            if c.obj is not None:
                self.ctx.check(p[i] is c.obj, "vector", lambda: "%s.%s[%d] is not the object put there" % (
                    n.cls, pd.name, i))
                self.ctx.check(p[i - len(v.v)] is c.obj, "vector", lambda: "negative index")

    def op_set(self):
        for _ in range(8):
            n, pd = self.pick_prop((SSET,))
            if n is not None:
                break
        else:
            return False
        return self.set_step(n, pd)

    def set_step(self, n, pd):
        rng = self.rng
        self.distinct(n, pd)
        v = n.props.get(pd.name)
        self.reload(n)
        o = self.obj(n)
        op = rng.choice(["put"] * 6 + ["pop"] * 4 + ["clear", "assign", "reassign", "extend"])
        cur = v.v if v else {}
        if op in ("clear", "assign", "reassign") and len(cur) > 2 and rng.random() < 0.5:
            op = "pop"
        if op in ("clear", "assign", "pop") and any(self.weak_uses(k) for k in cur):
            return False
        self.ctx.log("set", op, n.cls, pd.name, len(cur))
        if op == "put" or v is None:
            cands = self.fits(pd.ref)
            c = rng.choice(cands) if cands and rng.random() < 0.5 else self.make_member(n, pd, 1)
            if c is None or c is n.root():
                return False
            self.put_set(n, pd.name, c)
        elif op == "extend":
            items = {}
            for _ in range(rng.choice([0, 2, 3])):
                c = self.make_member(n, pd, 1)
                if c is not None and self.key_of(c) not in cur:
                    items[self.key_of(c)] = c
            o[pd.name].extend(iter([c.obj for c in items.values()]))
            for k, c in items.items():
                v.v[k] = c
                self.own(c, n, pd.name)
        elif op == "pop":
            if not cur:
                return False
            k = rng.choice(sorted(cur))
            c = cur[k]
            held = c.obj
            got = o[pd.name].pop(self.mkkey(k))
            self.ctx.check(held is None or got is held, "identity", "pop returned another object")
            c.obj = got
            del v.v[k]
            c.parent = c.prop = None
            self.pool.append(c)
        elif op == "clear":
            for c in list(cur.values()):
                self.to_pool(c)
            o[pd.name].clear()
            v.v = {}
        elif op == "reassign":
            # members in another order, some dropped
            ks = sorted(cur)
            rng.shuffle(ks)
            keep = [k for k in ks if rng.random() < 0.7 or self.weak_uses(k)]
            objs = {k: self.obj(cur[k], True) for k in ks}
            vals = [objs[k] for k in keep]
            o[pd.name].value = vals if rng.random() < 0.6 else dict(zip(keep, vals))
            for k in ks:
                if k not in keep:
                    self.to_pool(cur[k])
            v.v = {k: cur[k] for k in keep}
        else:
            self.set_set(n, pd, 1)
        self.after_set(n, pd)

    def after_set(self, n, pd):
        """the dictionary view of a keyed set"""
        rng = self.rng
        v = n.props.get(pd.name)
        want = v.v if v else {}
        p = self.obj(n)[pd.name]
        self.ctx.note("set_ops")
        self.ctx.eq(len(p), len(want), "set", "length of %s.%s" % (n.cls, pd.name))
        self.ctx.eq(sorted(keyb(k) for k, _ in p.items()), sorted(want), "set", "keys of %s.%s" % (n.cls, pd.name))
        for k in rng.sample(sorted(want), min(3, len(want))):
            key = self.mkkey(k)
            self.ctx.check(key in p, "set", lambda: "key %s is not contained" % k.hex())
            o = p.get(key)
            self.ctx.check(o is not None and o is p[key], "set", "get and [] differ")
            self.ctx.check(keyb(o.unique_key) == k, "set", lambda: "the object found under %s has key %s" % (
                k.hex(), keyb(o.unique_key).hex()))
            c = want[k]
            self.ctx.check(c.obj is None or c.obj is o, "set", lambda: "key %s yields another object" % k.hex())
        ids = set(id(o) for o in p)
        self.ctx.eq(len(ids), len(want), "set", "distinct objects in iteration")
        self.ctx.eq(sorted(keyb(o.unique_key) for o in p.values()), sorted(want), "set", "keys of iterated objects")
        for key in [self.mkkey(rng.choice(sorted(want))[:-1] + b"\xfe")] if want else []:
            if keyb(key) not in want:
                self.ctx.check(key not in p and p.get(key) is None and p.get(key, 5) == 5, "set", "a key too many")

    def op_primary(self):
        v = self.content().props["Mobs"].v
        if not v:
            return False
        if "PrimaryMob" in self.root.props and self.rng.random() < 0.3:
            del self.obj(self.root)["PrimaryMob"]
            del self.root.props["PrimaryMob"]
            return
        k = self.rng.choice(sorted(v))
        o = self.obj(v[k], True)
        self.obj(self.root)["PrimaryMob"].value = o
        self.root.props["PrimaryMob"] = Val("weak", k)
        self.ctx.check(self.obj(self.root)["PrimaryMob"].value is o, "weak-target", "PrimaryMob")
        self.ctx.log("primary", k.hex()[:12])

    def op_weak(self):
        for _ in range(6):
            n, pd = self.pick_prop((WEAK,))
            if n is not None:
                break
        else:
            return False
        self.distinct(n, pd)
        self.ctx.log("weak", n.cls, pd.name)
        if not self.set_prop(n, pd, 1):
            return False
        self.check_weak(n, pd)

    def check_weak(self, n, pd):
        k = n.props[pd.name].v
        p = self.obj(n)[pd.name]
        got = p.value
        want = dict(self.defset(pd.path))[k]
        if isinstance(want, Node):
            want = self.obj(want, True)
        self.ctx.check(got is want, "weak-target", lambda: "%s.%s resolves to %r, not to the object with key %s" % (
            n.cls, pd.name, got, k.hex()))
        self.ctx.note("weak_resolved")

    def op_warr(self):
        for _ in range(10):
            n, pd = self.pick_prop((WVEC, WSET))
            if n is not None:
                break
        else:
            # definitions are rarely picked: go for one
            ns = [n for n in self.nodes(defs=True) if n.cls in ("OperationDefinition", "CodecDefinition")]
            if not ns:
                return False
            n = self.rng.choice(ns)
            pds = [pd for pd in self.model.props(n.cls).values() if pd.form in (WVEC, WSET)]
            pd = self.rng.choice(sorted(pds, key=lambda p: p.name))
        rng = self.rng
        self.distinct(n, pd)
        p = self.obj(n)[pd.name]
        v = n.props.get(pd.name)
        kind = "wvec" if pd.form == WVEC else "wset"
        r = rng.random()
        self.ctx.log("warr", n.cls, pd.name, r)
        cur = list(v.v) if v else []
        if r < 0.6:
            k, t = self.pick_target(pd.path)
            if kind == "wset" and k in cur:
                return False
            if rng.random() < 0.5:
                p.append(t)
            else:
                p.extend(iter([t]))
            n.props[pd.name] = Val(kind, cur + [k])
        elif r < 0.7 and v is not None:
            p.clear()
            n.props[pd.name] = Val(kind, [])
        elif not self.set_prop(n, pd, 1):
            return False
        want = dict(self.defset(pd.path))
        ks = n.props[pd.name].v
        got = self.obj(n)[pd.name].value
        self.ctx.eq(len(got), len(ks), "weak-target", "length of %s.%s" % (n.cls, pd.name))
        for o, k in zip(got, ks):
            t = want[k]
            t = self.obj(t, True) if isinstance(t, Node) else t
            self.ctx.check(o is t, "weak-target", lambda: "%s.%s yields another object" % (n.cls, pd.name))
            self.ctx.note("weak_resolved")
        # the same by key
        p = self.obj(n)[pd.name]
        self.ctx.eq([keyb(k) for k, _ in p.items()], ks, "weak-target", "keys of %s.%s" % (n.cls, pd.name))
        for (_, a), b in zip(p.items(), p):
            self.ctx.check(a is b, "weak-target", lambda: "items() of %s.%s yields another object" % (n.cls, pd.name))
        for k in rng.sample(ks, min(2, len(ks))):
            t = want[k]
            t = self.obj(t, True) if isinstance(t, Node) else t
            key = self.mkkey(k)
            self.ctx.check(key in p and p[key] is t and p.get(key) is t and p.get(key, 7) is t, "weak-target",
                           lambda: "%s.%s does not find %s" % (n.cls, pd.name, k.hex()))
            self.ctx.note("weak_by_key")
        for k in [rng.choice(list(want))] + ([ks[0][:-1] + b"\xfe"] if ks else []):
            if k not in ks:
                key = self.mkkey(k)
                self.ctx.check(key not in p and p.get(key) is None and p.get(key, 7) == 7, "weak-target",
                               lambda: "%s.%s finds %s, which it does not refer to" % (n.cls, pd.name, k.hex()))
                self.ctx.raises(KeyError, "weak-target", p.__getitem__, key)

    def op_stream(self):
        for _ in range(10):
            n = self.pick_node(lambda n: any(v.kind == "stream" for v in n.props.values()))
            if n is not None:
                names = [k for k in sorted(n.props) if n.props[k].kind == "stream"]
                name = self.rng.choice(names)
                break
            n, pd = self.pick_prop((STREAM,))
            if n is not None:
                name = pd.name
                break
        else:
            return False
        rng = self.rng
        p = self.obj(n)[name]
        v = n.props.get(name)
        self.ctx.log("stream", n.cls, name, self.attached(n))
        if v is None or rng.random() < 0.5:
            d = self.blob()
            s = p.open("w")
            s.write(d)
            n.props[name] = Val("stream", bytearray(d))
        else:
            s = p.open("rw")
            d = self.blob()
            off = rng.randint(0, len(v.v))
            s.seek(off)
            s.write(d)
            v.v[off:off + len(d)] = d
        self.ctx.eq(bytes(self.obj(n)[name].open("r").read()), bytes(n.props[name].v), "stream",
                    "%s.%s" % (n.cls, name))

    def op_rekey(self):
        rng = self.rng
        cls = rng.choice(["Mob", "Mob", "EssenceData"])
        n = self.pick_node(lambda n: cls in self.model.chain(n.cls) and "MobID" in n.props)
        if n is None:
            return False
        old = keyb(n.props["MobID"].v)
        new = rng.choice(self.mobids) if rng.random() < 0.6 else self.new_unique_mobid()
        new = MobID(bytes_le=new.bytes_le)
        k = keyb(new)
        if self.weak_uses(old):
            return False
        o = self.obj(n)
        v = n.parent.props[n.prop].v if n.parent is not None else None
        if not isinstance(v, dict):
            v = None
        if v is not None and not self.attached(n):
            return False            # nothing leads from a member to the set of a detached owner

        def setit():
            if hasattr(o, "mob_id") and rng.random() < 0.5:
                o.mob_id = new
            else:
                o["MobID"].value = new
        self.ctx.log("rekey", n.cls, old.hex()[:12], k.hex()[:12], v is not None and k in v)
        if v is not None and k in v and k != old:
            self.ctx.raises((ValueError, AAFPropertyError, AAFAttachError), "rekey-collision", setit)
            self.ctx.note("rekey_refused")
        else:
            setit()
            n.props["MobID"] = Val("data", MobID(bytes_le=k), k)
            if v is not None:
                items = {(k if kk == old else kk): c for kk, c in v.items()}
                n.parent.props[n.prop].v = items
                got = self.obj(n.parent)[n.prop].get(MobID(bytes_le=k))
                self.ctx.check(got is o, "rekey", "the object is not found under its new id")
                if k != old:
                    self.ctx.check(MobID(bytes_le=old) not in self.obj(n.parent)[n.prop], "rekey",
                                   "the object is still found under its old id")
        if rng.random() < 0.5:
            new.Data1 ^= 5

    def op_reuse(self):
        """attach a released object somewhere it fits"""
        if not self.pool:
            return False
        c = self.rng.choice(self.pool)
        ch = self.model.chain(c.cls)
        if "Mob" in ch:
            return self.put_set(self.content(), "Mobs", c)
        if c.cls == "EssenceData":
            return self.put_set(self.content(), "EssenceData", c)
        ns = []
        for n in self.nodes():
            if n.root() is c:
                continue
            for pd in self.model.props(n.cls).values():
                if pd.form in (STRONG, SVEC) and pd.ref in ch and not self.frozen(n, pd):
                    ns.append((n, pd))
        if not ns:
            return False
        n, pd = self.rng.choice(ns)
        self.ctx.log("reuse", c.cls, n.cls, pd.name)
        self.ctx.note("reattached")
        if pd.form == STRONG:
            self.release(n, pd.name)
            self.obj(n)[pd.name].value = c.obj
            n.props[pd.name] = Val("strong", c)
        else:
            self.obj(n)[pd.name].append(c.obj)
            v = n.props.setdefault(pd.name, Val("vec", []))
            v.v.append(c)
        self.own(c, n, pd.name)

    def clone(self, n):
        m = Node(n.cls)
        for k, v in n.props.items():
            if v.kind == "strong":
                x = self.clone(v.v)
                x.parent, x.prop = m, k
                m.props[k] = Val("strong", x)
            elif v.kind == "vec":
                xs = [self.clone(c) for c in v.v]
                for x in xs:
                    x.parent, x.prop = m, k
                m.props[k] = Val("vec", xs)
            elif v.kind == "set":
                xs = {kk: self.clone(c) for kk, c in v.v.items()}
                for x in xs.values():
                    x.parent, x.prop = m, k
                m.props[k] = Val("set", xs)
            else:
                m.props[k] = Val(v.kind, bytearray(v.v) if v.kind == "stream" else
                                 list(v.v) if v.kind in ("wvec", "wset") else v.v, v.enc)
        return m

    def op_copy(self):
        n = self.pick_node(lambda n: n.cls not in NOGEN)
        if n is None:
            return False
        o = self.obj(n)
        before = snap(o)
        c = o.copy()
        m = self.clone(n)
        m.obj = c
        self.ctx.log("copy", n.cls, self.attached(n))
        self.verify(m, "copy of %s" % n.cls, "copy")
        self.ctx.check(snap(o) == before, "copy-source", "copying changed the source %s" % n.cls)
        self.pool.append(m)
        self.ctx.note("copies")

    def op_adddef(self):
        self.adddef(self.rng.choice(sorted(PIDSET.values())))

    def op_addid(self):
        n = self.make("Identification", 1)
        self.obj(self.root)["IdentificationList"].append(n.obj)
        self.root.props["IdentificationList"].v.append(n)
        self.own(n, self.root, "IdentificationList")

    def op_drop(self):
        """forget handles, so that objects are loaded again"""
        self.ctx.log("drop")
        keep = self.rng.random() * 0.5
        for n in self.root.walk():
            if self.rng.random() > keep:
                n.obj = None
        if self.rng.random() < 0.7:
            self.purge()
        gc.collect()

    def shrink_caches(self):
        """bounded caches behave alike at any size: tiny ones evict as a huge file would"""
        if not self.tiny:
            return
        for o, name in ((self.f.cfb, "children_cache"), (self.f.cfb, "sector_cache"), (self.f.manager, "lru_cache")):
            c = getattr(o, name, None)
            if type(c).__name__ == "LRUCacheDict":
                setattr(o, name, type(c)(self.rng.choice([1, 3, 10])))
                self.ctx.note("tiny_caches")

    def purge(self):
        """empty the object cache the way a long session would"""
        c = getattr(self.f.manager, "lru_cache", None)
        if c is not None:
            for k in list(getattr(c, "data", ())):
                try:
                    del c[k]
                except KeyError:
                    pass

    def op_save(self):
        self.ctx.log("save")
        self.f.save()

    def op_verify(self):
        self.verify_all("in session")

    def close(self, judge=True):
        self.ctx.log("close")
        self.f.close()
        if judge:
            self.judge()

    def forget(self):
        for n in self.root.walk():
            n.obj = None
        self.pool = []

    def op_reopen(self):
        for c in self.pool:
            self.verify(c, "released %s" % c.cls, "released")
        self.close()
        self.forget()
        self.open("r")
        self.verify_all("after reopening")
        self.f.close()
        for n in self.root.walk():
            n.obj = None
        self.open("r+")
        self.ctx.note("reopens")
        self.ctx.log("reopened")

    def finish(self):
        self.verify_all("at the end of the session")
        self.close()
        self.forget()
        self.open("r")
        self.verify_all("after reopening")
        self.f.close()
        vfs.FILES.pop(self.path, None)


REFUSED = (AAFAttachError, AAFPropertyError, TypeError, ValueError, AssertionError, IndexError, KeyError,
           AttributeError)


class Refusals(object):
    """Requests that must be refused and leave everything as it was (mixed into AWorld)."""

    def other_file(self):
        if self.foreign is None:
            self.foreign = aaf2.open(vfs.new("foreign-%d.aaf" % self.ctx.index), "w", extensions=self.ext)
            self.foreign_model = Model(self.foreign)
        return self.foreign

    def alien(self, base):
        """an object of another file that would fit"""
        f = self.other_file()
        if base == "DataDefinition":
            return f.create.DataDef(aafvals.rauid(self.rng), "alien")
        c = [k for k in self.foreign_model.concrete(base) if k not in ("OperationGroup", "CodecDefinition")]
        if not c:
            return None
        k = self.rng.choice(c)
        o = f.create.from_name(FACTORY.get(k, k))
        for name in ("MobID", "Identification"):
            if name in o.allkeys() and name not in o:
                o[name].value = self.new_unique_mobid() if name == "MobID" else aafvals.rauid(self.rng)
        if "Definition" in o.allkeys() and "Definition" not in o and "Parameter" in self.foreign_model.chain(k):
            o["Definition"].value = aafvals.rauid(self.rng)
        return o

    def wrong(self, base):
        """an unattached object of this file whose class does not fit"""
        for _ in range(20):
            k = self.rng.choice(sorted(n for n in self.model.classes if self.model.classes[n].concrete))
            if base in self.model.chain(k) or k in NOGEN or k in ("OperationGroup",) or self.model.height(k) >= 90:
                continue
            if "MetaDefinition" in self.model.chain(k):
                continue
            return self.create(k)
        return None

    def taken(self, base, but=None):
        """an object that is owned in the file already"""
        c = [n for n in self.root.walk() if base in self.model.chain(n.cls) and n is not but and
             n.cls not in NOGEN]
        return self.obj(self.rng.choice(c)) if c else None

    def bad_object(self, base, but=None, member_ok=False):
        kinds = ["wrong", "alien", "taken", "none"]
        k = self.rng.choice(kinds)
        if k == "wrong":
            return k, self.wrong(base)
        if k == "alien":
            return k, self.alien(base)
        if k == "taken":
            return k, self.taken(base, but)
        return k, None

    def refuse(self, what, node, fn, exc=REFUSED):
        before = snap(self.obj(node))
        keep = self.rng.random() < 0.7
        self.ctx.log("refuse", what, node.cls)
        try:
            fn()
        except exc as e:
            self.ctx.note("refused")
            self.ctx.note("refused_" + what.split(":")[0])
        except Violation:
            raise
        else:
            raise Violation("not-refused", "%s on %s was accepted" % (what, node.cls))
        after = snap(self.obj(node))
        if after != before:
            d = diff(after, before, node.cls)
            raise Violation("refused-with-effect", "%s on %s was refused but at %s: %s became %s" % (
                what, node.cls, d[0], short(d[2]), short(d[1])))
        if self.rng.random() < 0.2:
            self.verify_all("after a refused %s" % what, "refused-with-effect")

    def op_refuse(self):
        rng = self.rng
        n, pd = None, None
        for _ in range(12):
            n, pd = self.pick_prop((STRONG, SVEC, SVEC, SSET, WEAK, WVEC, WSET))
            if n is not None:
                break
        else:
            return False
        if rng.random() < 0.25:
            n, name = self.content(), rng.choice(["Mobs", "Mobs", "EssenceData"])
            pd = self.model.props(n.cls)[name]
        if not self.can_set(n, pd):
            return False
        o = self.obj(n)
        p = o[pd.name]
        v = n.props.get(pd.name)
        self.distinct(n, pd)
        if pd.form == STRONG:
            k, b = self.bad_object(pd.ref, v.v if v else None)
            if b is None:
                return False
            return self.refuse("strong:" + k, n, lambda: setattr(o[pd.name], "value", b))
        if pd.form == SVEC:
            cur = v.v if v else []
            r = rng.random()
            if r < 0.25:
                i = rng.choice([len(cur), len(cur) + 3, -len(cur) - 1, -len(cur) - 5])
                if rng.random() < 0.5:
                    return self.refuse("index:pop", n, lambda: p.pop(i), IndexError)
                if rng.random() < 0.5:
                    return self.refuse("index:get", n, lambda: p[i], IndexError)
                cls = self.pick_class(pd.ref, 9)
                if cls is None:
                    return False
                x = self.make(cls, 9)
                return self.refuse("index:set", n, lambda: p.__setitem__(i, x.obj), IndexError)
            k, b = self.bad_object(pd.ref)
            if b is None:
                return False
            how = rng.choice(["append", "insert", "setitem", "extend", "value"])
            good = []
            if how in ("extend", "value"):
                for _ in range(rng.choice([0, 1, 2])):
                    cls = self.pick_class(pd.ref, 9)
                    if cls is not None:
                        good.append(self.make(cls, 9))
            lst = [g.obj for g in good]
            lst.insert(rng.randint(0, len(lst)), b)
            if how == "append":
                fn = lambda: p.append(b)
            elif how == "insert":
                fn = lambda: p.insert(rng.randint(-3, 5), b)
            elif how == "setitem":
                if not cur:
                    return False
                i = rng.randint(-len(cur), len(cur) - 1)
                fn = lambda: p.__setitem__(i, b)
            elif how == "extend":
                fn = lambda: p.extend(lst)
            else:
                if k == "taken" and any(self.obj(c) is b for c in cur):
                    return False
                fn = lambda: setattr(p, "value", lst)
            self.refuse("vector %s:%s" % (how, k), n, fn)
            for g in good:
                self.ctx.check(g.obj.dir is None, "refused-with-effect", "a refused %s attached an item" % how)
                self.pool.append(g)
            return
        if pd.form == SSET:
            r = rng.random()
            if r < 0.3:
                key = self.new_unique_mobid() if pd.ref in ("Mob", "EssenceData") else aafvals.rauid(rng)
                if rng.random() < 0.5:
                    return self.refuse("key:pop", n, lambda: p.pop(key), KeyError)
                return self.refuse("key:get", n, lambda: p[key], KeyError)
            k, b = self.bad_object(pd.ref)
            if b is None:
                return False
            good = []
            how = rng.choice(["append", "extend", "value"])
            if how != "append" and pd.ref in ("Mob", "EssenceData") and rng.random() < 0.6:
                good.append(self.make(self.pick_class(pd.ref, 9), 9))
            lst = [g.obj for g in good]
            lst.insert(rng.randint(0, len(lst)), b)
            if how == "value" and k == "taken" and v and any(self.obj(c) is b for c in v.v.values()):
                return False
            fn = {"append": lambda: p.append(b), "extend": lambda: p.extend(lst),
                  "value": lambda: setattr(p, "value", lst)}[how]
            self.refuse("set %s:%s" % (how, k), n, fn)
            for g in good:
                self.ctx.check(g.obj.dir is None, "refused-with-effect", "a refused %s attached an item" % how)
                self.pool.append(g)
            return
        # weak references
        k = rng.choice(["wrong", "alien"])
        b = self.wrong(pd.ref) if k == "wrong" else self.alien_target(pd)
        if b is None:
            return False
        if pd.form == WEAK:
            return self.refuse("weak:" + k, n, lambda: setattr(o[pd.name], "value", b))
        lst = [self.pick_target(pd.path)[1] for _ in range(rng.choice([0, 1]))]
        lst.insert(rng.randint(0, len(lst)), b)
        how = rng.choice(["append", "extend", "value"])
        fn = {"append": lambda: p.append(b), "extend": lambda: p.extend(lst),
              "value": lambda: setattr(p, "value", lst)}[how]
        self.refuse("weak %s:%s" % (how, k), n, fn)

    def alien_target(self, pd):
        f = self.other_file()
        if pd.path == [1, 3]:
            return f.metadict.lookup_classdef("Filler")
        if pd.path == [1, 4]:
            return f.metadict.lookup_typedef("aafString")
        return self.alien(pd.ref)

    def op_refuse_key(self):
        """unique keys of owned definitions cannot change; ids cannot be removed"""
        n = self.pick_node(lambda n: "MobID" in n.props and n.parent is not None and n.prop in ("Mobs", "EssenceData"))
        if n is None or self.rng.random() < 0.5:
            d = self.dict()
            s = self.rng.choice([k for k in sorted(PIDSET.values()) if k in d.props and d.props[k].v])
            n = d.props[s].v[self.rng.choice(sorted(d.props[s].v))]
            name = "Identification"
        else:
            name = "MobID"
        o = self.obj(n)
        r = self.rng.random()
        if name == "Identification" and r < 0.6:
            return self.refuse("unique key:change", n, lambda: setattr(o[name], "value", aafvals.rauid(self.rng)))
        self.refuse("unique key:remove", n, lambda: setattr(o[name], "value", None))


for _k, _v in list(vars(Refusals).items()):
    if not _k.startswith("__"):
        setattr(AWorld, _k, _v)
OPS.update(refuse=0, refuse_key=0)
