"""Random property values with an independent encoding.

gen(rng, td) -> (value to assign, value expected back, bytes expected on disk or None)
decode(td, data) is an independent decoder used on raw file images.
Only the *description* of a type (element type, size, fields, enum table) is taken
from the library's dictionary objects; the coding rules here are written from the
format description.
"""
import datetime
import struct

from aaf2.auid import AUID
from aaf2.mobid import MobID
from aaf2.rational import AAFRational
from aaf2 import types as T

BOOL = "01040100-0000-0000-060e-2b3401040101"
MOBID = "01030200-0000-0000-060e-2b3401040101"
AUIDT = "01030100-0000-0000-060e-2b3401040101"
TIME = "03010600-0000-0000-060e-2b3401040101"
DATE = "03010500-0000-0000-060e-2b3401040101"
STAMP = "03010700-0000-0000-060e-2b3401040101"
RATIONAL = "03010100-0000-0000-060e-2b3401040101"
CHARACTER = "01100100-0000-0000-060e-2b3401040101"
CHAR8 = "01100300-0000-0000-060e-2b3401040101"
STRING = "01100200-0000-0000-060e-2b3401040101"
INT32 = "01010700-0000-0000-060e-2b3401040101"

PAL = ["", "a", "Mob", "A001_C002", "x" * 200, "\u00e9\u00fc\u4e2d\u6587", "\U0001f3ac clip", "tab\tnl\n", " lead trail ",
       "\ufeffbom", "a/b\\c:d", "e\u0301", "\u2028", "NULLless", "%s{0}", "\ud7ff\ue000\uffff"]


def rstr(rng):
    if rng.random() < 0.6:
        return rng.choice(PAL)
    return "".join(chr(rng.choice([rng.randint(1, 0x7f), rng.randint(0xa0, 0xd7ff), rng.randint(0xe000, 0xffff),
                                   rng.randint(0x10000, 0x10ffff)])) for _ in range(rng.randint(0, 12)))


def rint(rng, size, signed):
    lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
    r = rng.random()
    if r < 0.25:
        return rng.choice([lo, hi, 0, 1, hi - 1, lo + 1, hi >> 1, (hi >> 1) + 1])
    if r < 0.6:
        return max(lo, min(hi, rng.randint(-300, 300)))
    return rng.randint(lo, hi)


def rbytes(rng, n):
    return bytes(rng.getrandbits(8) for _ in range(n))


def rauid(rng):
    b = rbytes(rng, 16)
    if b == b"\0" * 16:
        b = b"\1" * 16
    return AUID(bytes_le=b)


def rmobid(rng):
    if rng.random() < 0.1:
        return MobID()
    b = rbytes(rng, 32)
    return MobID(bytes_le=b)


def uid(x):
    return str(x).lower()


def isinst(td, *names):
    return type(td).__name__ in names


def supported(td):
    """can this type hold a plain value?"""
    n = type(td).__name__
    if n in ("TypeDefInt", "TypeDefEnum", "TypeDefExtEnum", "TypeDefString", "TypeDefIndirect", "TypeDefRecord"):
        return True
    if n in ("TypeDefFixedArray", "TypeDefVarArray", "TypeDefSet"):
        return supported(td.element_typedef) or uid(td.element_typedef.auid) == CHARACTER
    if n == "TypeDefRename":
        return supported(td.renamed_typedef)
    return False


def gen(rng, td, depth=0):
    n = type(td).__name__
    key = uid(td.auid)
    if n == "TypeDefInt":
        v = rint(rng, td.size, td.signed)
        return v, v, v.to_bytes(td.size, "little", signed=td.signed)
    if n == "TypeDefEnum":
        if key == BOOL:
            v = rng.random() < 0.5
            return v, v, b"\1" if v else b"\0"
        els = td.elements
        val = rng.choice(sorted(els))
        name = els[val]
        et = td.element_typedef
        same = [k for k in sorted(els) if els[k] == name]
        return name if rng.random() < 0.7 else val, name, (
            same[0].to_bytes(et.size, "little", signed=et.signed) if len(same) == 1 else None)
    if n == "TypeDefExtEnum":
        els = td.elements
        a = rng.choice(sorted(els, key=lambda k: k.int))
        name = els[a]
        same = [k for k in els if els[k].lower() == name.lower()]
        r = rng.random()
        v = name if r < 0.6 else AUID(str(a)) if r < 0.8 else AUID(str(a)).uuid
        return v, name, bytes(a.bytes_le) if len(same) == 1 else None
    if n == "TypeDefString":
        if uid(td.element_typedef.auid) == CHAR8:
            s = "".join(chr(rng.randint(1, 126)) for _ in range(rng.choice([0, 1, 4, 30])))
            return s, s, s.encode("ascii") + b"\0"
        s = rstr(rng)
        return s, s, s.encode("utf-16le") + b"\0\0"
    if n == "TypeDefRename":
        return gen(rng, td.renamed_typedef, depth)
    if n == "TypeDefIndirect":
        r = rng.random()
        if r < 0.4:
            s = rstr(rng)
            return s, s, b"\x4c" + AUID(STRING).bytes_le + s.encode("utf-16le") + b"\0\0"
        if r < 0.7:
            v = rint(rng, 4, True)
            return v, v, b"\x4c" + AUID(INT32).bytes_le + struct.pack("<i", v)
        v, e, b = rational(rng)
        v = e
        return v, e, b"\x4c" + AUID(RATIONAL).bytes_le + b
    if n == "TypeDefRecord":
        if key == MOBID:
            m = rmobid(rng)
            return m, MobID(bytes_le=bytes(m.bytes_le)), bytes(m.bytes_le)
        if key == AUIDT:
            a = rauid(rng)
            v = a if rng.random() < 0.8 else a.uuid
            return v, AUID(str(a)), bytes(a.bytes_le)
        if key == RATIONAL:
            return rational(rng)
        if key == DATE:
            d = rdate(rng)
            return d, d, encdate(d)
        if key == TIME:
            t = rtime(rng)
            return t, t, enctime(t)
        if key == STAMP:
            t = datetime.datetime.combine(rdate(rng), rtime(rng))
            return t, t, encdate(t.date()) + enctime(t.time())
        v, e, b = {}, {}, b""
        for (name, tname), ft in zip(td.fields, list(td.member_types)):
            v[name], e[name], fb = gen(rng, ft, depth + 1)
            b = b + fb if (b is not None and fb is not None) else None
        return v, e, b
    if n == "TypeDefFixedArray":
        parts = [gen(rng, td.element_typedef, depth + 1) for _ in range(td.size)]
        return seq(td, parts, rng)
    if n == "TypeDefVarArray":
        if uid(td.element_typedef.auid) == CHARACTER:
            ss = [rstr(rng) for _ in range(rng.choice([0, 1, 2, 5]))]
            return ss, list(ss), b"".join(s.encode("utf-16le") + b"\0\0" for s in ss)
        if depth > 2:
            k = 0
        else:
            k = rng.choice([0, 1, 2, 3, 7, 40])
        parts = [gen(rng, td.element_typedef, depth + 1) for _ in range(k)]
        return seq(td, parts, rng)
    if n == "TypeDefSet":
        parts = [gen(rng, td.element_typedef, depth + 1) for _ in range(rng.choice([0, 1, 2, 5]))]
        v = [p[0] for p in parts]
        e = set(p[1] for p in parts)
        bs = [p[2] for p in parts]
        if any(b is None or isinstance(b, frozenset) for b in bs):
            return (set(v) if rng.random() < 0.5 else v), e, None
        return (set(v) if rng.random() < 0.5 else v), e, frozenset(bs)
    raise KeyError(n)


def enclen(b):
    return sum(map(len, b)) if isinstance(b, frozenset) else len(b)


def enceq(data, enc):
    """stored bytes against the expected ones; a frozenset stands for its members in any order"""
    if isinstance(enc, frozenset):
        k = len(next(iter(enc))) if enc else 1
        parts = [data[i:i + k] for i in range(0, len(data), k)]
        return len(parts) == len(enc) and frozenset(parts) == enc
    return data == enc


def seq(td, parts, rng):
    v = [p[0] for p in parts]
    e = [p[1] for p in parts]
    bs = [p[2] for p in parts]
    if rng.random() < 0.3:
        v = tuple(v)
    return v, e, None if any(b is None for b in bs) else b"".join(bs)


def same(got, want):
    """value equality, sequences compared element by element whatever their type"""
    if isinstance(want, (list, tuple)):
        return isinstance(got, (list, tuple)) and len(got) == len(want) and all(same(a, b) for a, b in zip(got, want))
    if isinstance(want, dict):
        return isinstance(got, dict) and sorted(got) == sorted(want) and all(same(got[k], want[k]) for k in want)
    if isinstance(want, bool):
        return isinstance(got, bool) and got == want
    if isinstance(want, AAFRational):
        return (isinstance(got, AAFRational) and got.numerator == want.numerator and
                got.denominator == want.denominator)
    if isinstance(want, (AUID, MobID)):
        return type(got) is type(want) and bytes(got.bytes_le) == bytes(want.bytes_le)
    if isinstance(want, datetime.datetime) or isinstance(got, datetime.datetime):
        return type(got) is type(want) and got == want
    return got == want


def rdate(rng):
    return datetime.date(rng.choice([1, 1904, 1970, 1999, 2000, 2024, 9999, rng.randint(1, 9999)]),
                         rng.randint(1, 12), rng.randint(1, 28))


def rtime(rng):
    return datetime.time(rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))


def encdate(d):
    return struct.pack("<hBB", d.year, d.month, d.day)


def enctime(t):
    return struct.pack("<BBBB", t.hour, t.minute, t.second, 0)


RATS = [(25, 1), (24000, 1001), (30000, 1001), (1, 1), (0, 1), (-1, 1), (2, 4), (50, 2), (48000, 1), (1, 3),
        (0x7FFFFFFF, 1), (1, 0x7FFFFFFF), (-0x7FFFFFFF, 1), (-0x80000000, 1), (6, 4), (-6, 4)]


def rational(rng):
    if rng.random() < 0.5:
        num, den = rng.choice(RATS)
    else:
        num, den = rng.randint(-0x80000000, 0x7FFFFFFF), rng.randint(1, 0x7FFFFFFF)
    r = AAFRational(num, den)
    v = r
    x = rng.random()
    if x < 0.2:
        v = "%d/%d" % (num, den)
    elif x < 0.4 and den == 1:
        v = num
    return v, AAFRational(num, den), struct.pack("<ii", num, den)
