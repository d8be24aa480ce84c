"""The published object model (AAF object specification and the usual extensions) as data, and a reader of the model
that is stored in a file image.  Nothing here imports the library.

data/standard.json holds classes, properties, types and definitions by their identification.  It was drawn up with
tools/mkstandard.py and compared with the models that other applications stored in their files.
"""
import json
import os
import struct

from . import aafref
from .aafref import auid, ustr

WHERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "standard.json")
_table = None


def table():
    global _table
    if _table is None:
        with open(WHERE) as f:
            _table = json.load(f)
    return _table


NUM = {0x0F: "<B", 0x10: "<B", 0x18: "<I"}                         # size, signed, count
REF = {0x11: "class", 0x12: "class", 0x14: "element", 0x17: "element", 0x19: "element", 0x1A: "element", 0x1B: "element",
       0x1E: "renamed"}
INTS = {"01010100": "B", "01010200": "<H", "01010300": "<I", "01010400": "<Q", "01010500": "b", "01010600": "<h",
        "01010700": "<i", "01010800": "<q"}


def strings(b):
    return bytes(b).decode("utf-16le", "surrogatepass").split("\0")[:-1]


def type_of(A, t):
    """what a stored type definition says, without its order of elements where that has no meaning"""
    o = t["obj"]
    out = dict(kind=o.clsid, name=t["name"])
    p = o.props
    for pid, fmt in NUM.items():
        if pid in p:
            b = bytes(p[pid].data)
            out["%02x" % pid] = int.from_bytes(b, "little")
    for pid, name in REF.items():
        if pid in p:
            q = p[pid]
            out["%02x" % pid] = auid(q.keys[0]) if q.keys else auid(q.data)
    if 0x13 in p:                                                    # weak reference: the way to the target set
        b = bytes(p[0x13].data)
        out["13"] = [auid(b[k:k + 16]) for k in range(0, len(b), 16)]
    if 0x15 in p:                                                    # enumeration
        names = strings(p[0x15].data)
        size = len(bytes(p[0x16].data)) // max(1, len(names))
        b = bytes(p[0x16].data)
        out["enum"] = {str(int.from_bytes(b[k * size:k * size + size], "little", signed=True)): n
                       for k, n in enumerate(names)}
    if 0x1F in p:                                                    # extendible enumeration
        b = bytes(p[0x20].data)
        out["enum"] = {auid(b[k * 16:k * 16 + 16]): n for k, n in enumerate(strings(p[0x1F].data))}
    if 0x1D in p:
        q = p[0x1C]
        ks = q.keys if q.keys is not None else [bytes(q.data)[k:k + 16] for k in range(0, len(q.data), 16)]
        out["fields"] = [[n, auid(k)] for n, k in zip(strings(p[0x1D].data), ks)]
    return out


def class_of(c):
    return dict(name=c["name"], parent=c["parent"], concrete=c["concrete"],
                props={d["auid"]: [d["name"], d["pid"], d["type"], d["optional"], d["unique"]] for d in c["props"].values()})


def model_of(A):
    return dict(classes={a: class_of(c) for a, c in A.classes.items()},
                types={a: type_of(A, t) for a, t in A.types.items()})


DEFS = {0x2603: "OperationDefinitions", 0x2604: "ParameterDefinitions", 0x2605: "DataDefinitions",
        0x2606: "PluginDefinitions", 0x2607: "CodecDefinitions", 0x2608: "ContainerDefinitions",
        0x2609: "InterpolationDefinitions", 0x260A: "KLVDataDefinitions", 0x260B: "TaggedValueDefinitions"}


def definition(o):
    """name and references of a definition: [name, {local id: identifications}]"""
    refs = {"%04x" % pid: sorted(auid(k) for k in p.keys) for pid, p in o.props.items()
            if p.form in (aafref.WEAK, aafref.WVEC, aafref.WSET) and p.keys}
    return [ustr(o.props[0x1B02].data) if 0x1B02 in o.props else None, refs]


def definitions_of(A):
    """{set: {identification: (name, object)}} of the dictionary"""
    head = A.objs[A.objs["/"].props[2].child]
    d = A.objs[head.props[0x3B04].child]
    out = {}
    for pid, name in DEFS.items():
        if pid in d.props:
            out[name] = {}
            for path in d.props[pid].items:
                o = A.objs[path]
                out[name][auid(o.props[0x1B01].data)] = (ustr(o.props[0x1B02].data) if 0x1B02 in o.props else None, o)
    return out


def differences(A, exts=True, other=False):
    """what the stored model says against the published one; other: of another application (may name things differently)"""
    T = table()
    M = model_of(A)
    out = []
    counts = dict(classes=0, props=0, types=0)
    for a, c in M["classes"].items():
        s = T["classes"].get(a)
        if s is None:
            continue
        counts["classes"] += 1
        for k in ("name", "concrete", "parent"):
            if c[k] != s[k] and not (k == "parent" and s["parent"] in (None, a)):
                out.append(("class", "class %s (%s): %s is %r, published %r" % (s["name"], a, k, c[k], s[k])))
        for q, d in c["props"].items():
            e = s["props"].get(q)
            if e is None:
                if d[1] < 0x8000 and any(x[1] == d[1] for x in s["props"].values()):
                    out.append(("property", "%s: id %04x of %s belongs to another property" % (s["name"], d[1], d[0])))
                continue
            counts["props"] += 1
            bad = [(n, x, y) for n, x, y in zip(("name", "local id", "type", "optional", "unique"), d, e)
                   if x != y and not (n == "local id" and y is None and x >= 0x8000)]
            if bad:
                out.append(("property", "%s.%s: %s" % (s["name"], e[0], "; ".join("%s is %r, published %r" % b for b in bad))))
    for a, t in M["types"].items():
        s = T["types"].get(a)
        if s is None:
            continue
        counts["types"] += 1
        for k in sorted(set(s) | set(t)):
            if k == "ext":
                continue
            x, y = t.get(k), s.get(k)
            if k == "enum" and x is not None and y is not None:
                # elements may be added
                x = {v: n for v, n in x.items() if v in y}
                y = {v: n for v, n in y.items() if v in x or (not other and v in s.get("base", y))}
            if k == "base":
                continue
            if x != y:
                out.append(("type", "type %s (%s): %s is %s, published %s" % (s["name"], a, k, str(x)[:300], str(y)[:300])))
    return out, counts
