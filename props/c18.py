"""Identifiers and rationals: every conversion is loss free, order and hash follow the bytes, new ids are unique."""
import copy
import io
import math
import os
import pickle
import random
import struct
import time
import uuid
from decimal import Decimal
from fractions import Fraction

import aaf2
from aaf2.auid import AUID
from aaf2.mobid import MobID
from aaf2.rational import AAFRational
from vlib import vfs
from vlib.harness import HarnessError

ID = "C18"
PLAN = {
    "quick": 160, "thorough": 2400,
    "rule": "identifiers of random, patterned, one-bit-apart and special bytes go through every constructor, property, setter "
            "and text form and are compared with conversions done by uuid.UUID, int.from_bytes and struct, sorted and used as "
            "dictionary keys next to neighbours; arguments and results are overwritten afterwards; ids are made after the "
            "random generator is reset, the clock stands still and the process forked; rationals are made from pairs, texts, "
            "decimals and floats and compared with exact fractions, floats against an exact search for the closest fraction "
            "with 32 bit parts, also after being stored in a file; distinct by (part, pattern)",
    "require": {"auids": 8000, "mobids": 8000, "rationals": 15000, "floats": 15000, "unique": 8000},
    "assumptions": ["URN texts the format makes ambiguous (material starting 060e2b347f7f under a label that ends in 00) are "
                    "left out"],
}
M = 0x7fffffff
SPECIAL = [b"\x00" * 16, b"\xff" * 16, b"\x06\x0e\x2b\x34\x7f\x7f" + bytes(10), b"\x00" * 15 + b"\x01",
           b"\x80" + b"\x00" * 15, bytes(range(16)), b"\x06\x0e\x2b\x34" + bytes(12)]


def rbytes(rng, n, seen):
    r = rng.random()
    if r < 0.3:
        return bytes(rng.getrandbits(8) for _ in range(n)), "random"
    if r < 0.5 and seen:
        b = bytearray(rng.choice(seen))
        i = rng.randrange(n)
        b[i] ^= 1 << rng.randrange(8)
        return bytes(b), "bit"
    if r < 0.65 and seen:
        b = bytearray(rng.choice(seen))
        i, j = rng.randrange(n), rng.randrange(n)
        b[i], b[j] = b[j], b[i]
        return bytes(b), "swap"
    if r < 0.8:
        b = b"".join(rng.choice(SPECIAL) for _ in range(n // 16))
        return b, "special"
    if r < 0.9:
        b = bytearray(n)
        for _ in range(rng.choice([1, 2, 4])):
            b[rng.randrange(n)] = rng.choice([1, 0x7f, 0x80, 0xff])
        return bytes(b), "sparse"
    return bytes(rng.choice([0, 0, 0x10, 0xff, 0x0f]) for _ in range(n)), "nibbles"


def auid_forms(b):
    u = uuid.UUID(bytes_le=b)
    t = str(u)
    yield "bytes_le", lambda: AUID(bytes_le=b)
    yield "bytes_le/array", lambda: AUID(bytes_le=bytearray(b))
    yield "bytes_be", lambda: AUID(bytes_be=u.bytes)
    yield "text", lambda: AUID(t)
    yield "upper", lambda: AUID(t.upper())
    yield "hex", lambda: AUID(u.hex)
    yield "braces", lambda: AUID("{%s}" % t)
    yield "urn", lambda: AUID("urn:uuid:" + t)
    yield "uuid", lambda: AUID(u)
    yield "auid", lambda: AUID(AUID(bytes_le=b))
    yield "int", lambda: AUID(int=u.int)
    yield "repr", lambda: AUID(str(AUID(bytes_le=b)))
    yield "ownhex", lambda: AUID(AUID(bytes_le=b).hex)
    yield "ownint", lambda: AUID(int=AUID(bytes_le=b).int)
    yield "ownbe", lambda: AUID(bytes_be=AUID(bytes_le=b).bytes_be)
    yield "ownuuid", lambda: AUID(AUID(bytes_le=b).uuid)
    yield "copy", lambda: copy.copy(AUID(bytes_le=b))
    yield "deepcopy", lambda: copy.deepcopy(AUID(bytes_le=b))
    yield "pickle", lambda: pickle.loads(pickle.dumps(AUID(bytes_le=b), 2))


def order(ctx, ids, keyf, sig, cmps):
    """comparisons, hashing and sorting follow the value"""
    rng = ctx.rng
    for _ in range(60):
        a, b = rng.choice(ids), rng.choice(ids)
        ka, kb = keyf(a), keyf(b)
        ctx.check((a == b) == (ka == kb) and (a != b) == (ka != kb), sig + "-equal", lambda: "%s == %s" % (a, b))
        ctx.check((a < b) == (ka < kb) and (a > b) == (ka > kb), sig + "-order", lambda: "%s < %s" % (a, b))
        if cmps:
            ctx.check((a <= b) == (ka <= kb) and (a >= b) == (ka >= kb), sig + "-order", lambda: "%s <= %s" % (a, b))
        if ka == kb:
            ctx.check(hash(a) == hash(b), sig + "-hash", lambda: "equal ids %s hash differently" % a)
    ctx.check([keyf(x) for x in sorted(ids)] == sorted(keyf(x) for x in ids), sig + "-sort", "sorting")
    d = {}
    for i, x in enumerate(ids):
        d[x] = i
    want = {keyf(x): i for i, x in enumerate(ids)}
    ctx.check({keyf(x): i for x, i in d.items()} == want, sig + "-dict", "dictionary of ids")
    ctx.check(len(set(ids)) == len(want), sig + "-dict", "set of ids")


def auids(ctx):
    rng = ctx.rng
    seen, ids = [], []
    for _ in range(40):
        b, pat = rbytes(rng, 16, seen)
        seen.append(b)
        u = uuid.UUID(bytes_le=b)
        forms = list(auid_forms(b))
        for name, make in (forms if rng.random() < 0.4 else rng.sample(forms, 5)):
            a = make()
            ctx.note("auids")
            ctx.distinct(("auid", pat, name))
            ctx.check(bytes(a.bytes_le) == b, "auid-" + name, lambda: "%s made from %s is %s" % (name, u, a))
            ctx.check(a.int == u.int and bytes(a.bytes_be) == u.bytes and a.hex == u.hex and str(a) == str(u) and
                      a.uuid == u and a == u and u == a, "auid-out",
                      lambda: "%s made by %s reads %s %x %s" % (u, name, a, a.int, bytes(a.bytes_be).hex()))
            ctx.check((a.data1, a.data2, a.data3) == struct.unpack("<IHH", b[:8]) and bytes(a.data4) == b[8:], "auid-fields",
                      lambda: "fields of %s: %x %x %x" % (u, a.data1, a.data2, a.data3))
            ids.append(a)
        # independence of what goes in and comes out
        src = bytearray(b)
        a = AUID(bytes_le=src)
        a2 = AUID(a)
        src[rng.randrange(16)] ^= 0xff
        for got in (a.bytes_be, a.data4):
            got[0] ^= 0x55
        ctx.check(bytes(a.bytes_le) == b, "auid-alias", "changing an argument or a result changed the id")
        a.bytes_be = u.bytes[::-1]
        ctx.check(bytes(a.bytes_be) == u.bytes[::-1], "auid-setter", "bytes_be setter")
        ctx.check(bytes(a2.bytes_le) == b, "auid-alias", "changing an id changed the copy made of it")
    for t in ("", "00", "g" * 32, "0" * 31, "0" * 33, "urn:uuid:" + "0" * 30, "not an id", "0" * 64):
        ctx.raises((ValueError,), "auid-bad", AUID, t)
    ctx.raises((TypeError,), "auid-bad", AUID)
    for v in (-1, 1 << 128, (1 << 128) + 5):
        ctx.raises((ValueError,), "auid-bad", lambda: AUID(int=v))
    ids = rng.sample(ids, 60)
    order(ctx, ids, lambda a: uuid.UUID(bytes_le=bytes(a.bytes_le)).int, "auid", False)
    a = rng.choice(ids)
    for other in (None, 5, "x", str(a), bytes(a.bytes_le), a.int):
        ctx.check(not (a == other) and a != other, "auid-foreign", lambda: "%r == %r" % (a, other))


def urn(b):
    h = bytes(b).hex()
    d1, d2, d3 = struct.unpack("<IHH", b[16:24])
    a, d = "%08x.%04x%04x" % (d1, d2, d3), "%s.%s" % (h[48:56], h[56:64])
    if b[11] == 0 and b[24:30] == b"\x06\x0e\x2b\x34\x7f\x7f":
        a, d = d, a
    return "urn:smpte:umid:%s.%s.%s.%s.%s.%s" % (h[:8], h[8:16], h[16:24], h[24:32], a, d)


def ambiguous(b):
    return b[11] == 0 and b[24:30] != b"\x06\x0e\x2b\x34\x7f\x7f" and \
        struct.unpack("<IH", b[16:22]) == (0x060e2b34, 0x7f7f)


def fields(b):
    d1, d2, d3 = struct.unpack("<IHH", b[16:24])
    return {"SMPTELabel": list(b[:12]), "length": b[12], "instanceHigh": b[13], "instanceMid": b[14], "instanceLow": b[15],
            "material": {"Data1": d1, "Data2": d2, "Data3": d3, "Data4": list(b[24:])}}


def set_int(m, v):
    m.int = v
    return m


def set_urn(m, v):
    m.urn = v
    return m


def from_dict(m, d):
    m.from_dict(d)
    return m


def mob_forms(b, rng):
    i = int.from_bytes(b, "big")
    junk = lambda: MobID(bytes_le=bytes(rng.getrandbits(8) for _ in range(32)))
    yield "bytes", lambda: MobID(bytes_le=b)
    yield "int", lambda: MobID(int=i)
    yield "setint", lambda: set_int(junk(), i)
    yield "dict", lambda: from_dict(MobID(), fields(b))
    yield "dict over", lambda: from_dict(junk(), fields(b))
    yield "owndict", lambda: from_dict(junk(), MobID(bytes_le=b).to_dict())
    yield "ownint", lambda: MobID(int=int(MobID(bytes_le=b)))
    yield "copy", lambda: copy.copy(MobID(bytes_le=b))
    yield "deepcopy", lambda: copy.deepcopy(MobID(bytes_le=b))
    yield "pickle", lambda: pickle.loads(pickle.dumps(MobID(bytes_le=b), 2))
    if not ambiguous(b):
        t = urn(b)
        yield "urn", lambda: MobID(t)
        yield "upper", lambda: MobID(t.upper())
        yield "plain", lambda: MobID(t.replace("urn:smpte:umid:", "").replace(".", ""))
        yield "seturn", lambda: set_urn(junk(), t)
        yield "ownurn", lambda: MobID(MobID(bytes_le=b).urn)
        yield "str", lambda: MobID(str(MobID(bytes_le=b)))
        yield "mobid", lambda: MobID(MobID(bytes_le=b))


def mobids(ctx):
    rng = ctx.rng
    seen, ids = [], []
    for _ in range(40):
        b, pat = rbytes(rng, 32, seen)
        if rng.random() < 0.3:
            x = bytearray(b)
            x[:12] = bytes.fromhex("060a2b340101010501010f") + bytes([rng.choice([0, 0x20, 0x10, 1])])
            x[12] = 0x13
            b = bytes(x)
            pat += "+label"
        if rng.random() < 0.15:
            x = bytearray(b)
            x[24:30] = b"\x06\x0e\x2b\x34\x7f\x7f"
            if rng.random() < 0.3:
                x[24 + rng.randrange(6)] ^= 1
            b = bytes(x)
            pat += "+swapped"
        seen.append(b)
        forms = list(mob_forms(b, rng))
        for name, make in (forms if rng.random() < 0.4 else rng.sample(forms, 5)):
            m = make()
            ctx.note("mobids")
            ctx.distinct(("mobid", pat, name))
            ctx.check(bytes(m.bytes_le) == b, "mobid-" + name, lambda: "%s from %s gives %s" % (name, b.hex(), bytes(m.bytes_le).hex()))
            ctx.check(m.urn == urn(b) and str(m) == urn(b), "mobid-urn", lambda: "%s prints as %s" % (b.hex(), m.urn))
            ctx.check(m.int == int.from_bytes(b, "big") == int(m), "mobid-int", lambda: "%s is %x" % (b.hex(), m.int))
            ctx.check(m.to_dict() == fields(b), "mobid-dict", lambda: "%s: %s" % (b.hex(), m.to_dict()))
            ctx.check(bytes(m.material.bytes_le) == b[16:], "mobid-material", b.hex())
            ids.append(m)
        # setters touch their field only
        m = MobID(bytes_le=bytearray(b))
        want = bytearray(b)
        for _ in range(4):
            f = rng.choice(["SMPTELabel", "length", "instanceHigh", "instanceMid", "instanceLow", "Data1", "Data2", "Data3",
                            "Data4", "material"])
            if f in ("SMPTELabel", "Data4"):
                o, n = (0, 12) if f == "SMPTELabel" else (24, 8)
                v = [rng.getrandbits(8) for _ in range(n)]
                want[o:o + n] = bytes(v)
                v = rng.choice([list, tuple, bytearray, bytes])(v)
            elif f == "material":
                v = rng.choice([AUID, uuid.UUID])(int=rng.getrandbits(128))
                want[16:] = v.bytes_le
            else:
                o, fmt = {"length": (12, "B"), "instanceHigh": (13, "B"), "instanceMid": (14, "B"), "instanceLow": (15, "B"),
                          "Data1": (16, "<I"), "Data2": (20, "<H"), "Data3": (22, "<H")}[f]
                v = rng.getrandbits(8 * struct.calcsize(fmt))
                struct.pack_into(fmt, want, o, v)
            setattr(m, f, v)
            ctx.check(bytes(m.bytes_le) == bytes(want), "mobid-setter", lambda: "setting %s made %s, expected %s" % (
                f, bytes(m.bytes_le).hex(), bytes(want).hex()))
            if f == "material":
                v.bytes_le if isinstance(v, uuid.UUID) else v.bytes_le.__setitem__(0, v.bytes_le[0] ^ 1)
                ctx.check(bytes(m.bytes_le) == bytes(want), "mobid-alias", "material setter keeps its argument")
        src = bytearray(b)
        m = MobID(bytes_le=src)
        src[rng.randrange(32)] ^= 0xff
        x = m.material
        x.bytes_le[3] ^= 0xff
        m.SMPTELabel[0] ^= 1
        m.Data4[0] ^= 1
        m.to_dict()["SMPTELabel"][0] ^= 1
        ctx.check(bytes(m.bytes_le) == b, "mobid-alias", "changing an argument or a result changed the id")
    for t in ("060a", "x" * 64, urn(bytes(32))[:-1], urn(bytes(32)) + "0"):
        ctx.raises((AssertionError, ValueError), "mobid-bad", MobID, t)
    ids = rng.sample(ids, 60)
    order(ctx, ids, lambda m: int.from_bytes(bytes(m.bytes_le), "big"), "mobid", True)
    m = rng.choice(ids)
    for other in (None, 5, str(m), bytes(m.bytes_le), m.int, m.material):
        ctx.check(not (m == other) and m != other, "mobid-foreign", lambda: "%r == %r" % (m, other))


def closest(v, n=M):
    """all fractions with parts up to n that are closest to v, exactly (v >= 0)"""
    if v > n:
        return {Fraction(n)}
    a, b, c, d = 0, 1, 1, 0
    p, q = v.numerator, v.denominator
    big = 1 << 200
    while True:
        den, num = c * q - d * p, p * b - a * q
        k = num // den if den > 0 else big
        km = min(k, (n - a) // c if c else big, (n - b) // d if d else big)
        a, b = a + km * c, b + km * d
        if a * q == p * b:
            return {Fraction(a, b)}
        if km < k:
            break
        den, num = p * b - a * q, c * q - d * p
        k = num // den
        km = min(k, (n - c) // a if a else big, (n - d) // b if b else big)
        c, d = c + km * a, d + km * b
        if c * q == p * d:
            return {Fraction(c, d)}
        if a + c > n or b + d > n or km < k:
            break
    cand = {Fraction(a, b)}
    if d:
        cand.add(Fraction(c, d))
    m = min(abs(x - v) for x in cand)
    return {x for x in cand if abs(x - v) == m}


def rfloat(rng):
    t = rng.random()
    if t < .2:
        return rng.uniform(0, 1) * 10 ** rng.randint(-14, 14), "scaled"
    if t < .35:
        return float(Fraction(M, rng.randint(1, 1000))) * (1 + rng.choice([0, 1e-15, 1e-12, 1e-10, -1e-12])), "limit"
    if t < .5:
        return rng.randint(1, M) / rng.randint(1, M), "quotient"
    if t < .6:
        return 2.0 ** rng.randint(-70, 70) * rng.choice([1, 1 + 2 ** -52, 1.5, 2 - 2 ** -52]), "power"
    if t < .75:
        return rng.randint(1, 240) * 1000 / 1001.0, "ntsc"
    if t < .8:
        return struct.unpack("<d", struct.pack("<Q", rng.getrandbits(63)))[0], "bits"
    if t < .9:
        return rng.choice([M, M - 1, M + 1, 1 << 31, 1 << 32, 1, 0, 0.5]) + rng.choice([0, .5, .25, -.5, 1e-3, 1e-7]), "edge"
    return float(rng.choice(["23.976", "29.97", "59.94", "23.98", "25", "24", "119.88", "0.1", "48000", "44100", "0.04"])), "text"


def rationals(ctx, f):
    rng = ctx.rng
    slot = None
    if f is not None:
        mob = f.create.CompositionMob("r")
        f.content.mobs.append(mob)
        slot = mob.create_timeline_slot(25)
    i32 = lambda: rng.choice([0, 1, -1, 2, 10, 1001, 24000, 30000, M, -M, -M - 1, rng.randint(-M, M), rng.randint(-100, 100)])
    stored = []
    for _ in range(150):
        n, d = i32(), i32() or 1
        how = rng.choice(["pair", "text", "rational", "int", "mix", "copy"])
        if how == "pair":
            r = AAFRational(n, d)
        elif how == "text":
            if d < 0:
                d = -d
            r = AAFRational(rng.choice(["%d/%d", " %d/%d", "%d/%d "]) % (n, d))
        elif how == "rational":
            r = AAFRational(Fraction(n, d))
            n, d = Fraction(n, d).numerator, Fraction(n, d).denominator
        elif how == "int":
            r = AAFRational(n)
            d = 1
        elif how == "copy":
            r = AAFRational(AAFRational(n, d))
        else:
            x = Fraction(rng.randint(-99, 99), rng.randint(1, 99))
            r = AAFRational(x, Fraction(5))
            n, d = x.numerator, x.denominator * 5
        ctx.note("rationals")
        ctx.check((r.numerator, r.denominator) == (n, d), "rational-parts", lambda: "%s: %d/%d became %d/%d" % (
            how, n, d, r.numerator, r.denominator))
        ctx.check(isinstance(r, AAFRational), "rational-class", how)
        ctx.distinct(("rational", how, n == 0, n < 0, d < 0, abs(n) > 1e6, abs(d) > 1e6))
        if d > 0:
            ctx.check(float(r) == n / d, "rational-float", lambda: "float of %d/%d" % (n, d))
            o = Fraction(i32(), abs(i32()) or 1)
            v = Fraction(n, d)
            ctx.check((r < o) == (v < o) and (r > o) == (v > o) and (o < r) == (o < v), "rational-order", lambda: "%s %s" % (v, o))
            for a, b in ((r + o, v + o), (r - o, v - o), (r * o, v * o), (o - r, o - v), (-r, -v), (abs(r), abs(v))):
                ctx.check(a.numerator * b.denominator == b.numerator * a.denominator, "rational-arithmetic",
                          lambda: "%d/%d and %s: %s, expected %s" % (n, d, o, a, b))
            ctx.check(int(r) == int(v) and round(r) == round(v) and math.floor(r) == math.floor(v), "rational-int", str(v))
        if slot is not None and rng.random() < 0.2 and -M - 1 <= n <= M and -M - 1 <= d <= M:
            slot["EditRate"].value = r
            g = slot["EditRate"].value
            ctx.check((g.numerator, g.denominator) == (n, d), "rational-stored", lambda: "%d/%d reads %d/%d" % (
                n, d, g.numerator, g.denominator))
            ctx.check(bytes(slot["EditRate"].data) == struct.pack("<ii", n, d), "rational-stored", "%d/%d" % (n, d))
    # 0/0 stands for zero
    z = AAFRational(0, 0)
    ctx.check((z.numerator, z.denominator) == (0, 1), "rational-zero", "0/0")
    for a in ((1, 0), (-5, 0), ("3/0",)):
        ctx.raises((ZeroDivisionError,), "rational-zero", AAFRational, *a)
    for t in ("", "abc", "1/", "/2", "1//2", "1.5/2", "--1", "1 / / 2", "0x10"):
        ctx.raises((ValueError,), "rational-bad", AAFRational, t)
    for t in (None, [], b"1", 1j, object()):
        ctx.raises((TypeError,), "rational-bad", AAFRational, t)
    for a in ((1, 0.5), ("1", 2), (1, None and 0 or "2")):
        ctx.raises((TypeError,), "rational-bad", AAFRational, *a)
    for _ in range(100):
        # texts and decimals keep their exact value
        digits = lambda k: "".join(rng.choice("0123456789") for _ in range(k))
        t = rng.choice(["", "-", "+"])
        whole, frac = digits(rng.choice([0, 1, 3, 7])), digits(rng.choice([0, 1, 2, 5, 9]))
        if not whole and not frac:
            continue
        if rng.random() < 0.1 and len(frac) > 1:
            frac = frac[0] + "_" + frac[1:]
        if rng.random() < 0.1 and len(whole) > 1:
            whole = whole[0] + "_" + whole[1:]
        t += whole + ("." + frac if frac or rng.random() < 0.1 else "")
        if rng.random() < 0.3:
            t += rng.choice("eE") + rng.choice(["", "+", "-"]) + str(rng.randint(0, 6))
        try:
            v = Fraction(t)
        except ValueError:
            continue
        r = AAFRational(t)
        ctx.note("rationals")
        ctx.check(r.numerator * v.denominator == v.numerator * r.denominator and r.denominator > 0, "rational-text",
                  lambda: "%r became %d/%d" % (t, r.numerator, r.denominator))
        if "_" not in t:
            r = AAFRational(Decimal(t))
            ctx.check(r.numerator * v.denominator == v.numerator * r.denominator, "rational-decimal", t)
    for _ in range(150):
        x, pat = rfloat(rng)
        x = abs(float(x))
        if not (x == x and x != math.inf):
            continue
        sign = rng.choice([1, -1])
        r = AAFRational(sign * x)
        ctx.note("floats")
        ctx.distinct(("float", pat, sign, x > 1, x > M))
        n, d = r.numerator, r.denominator
        ctx.check(d > 0 and d <= M and abs(n) <= M, "float-range", lambda: "%r became %d/%d" % (sign * x, n, d))
        g = Fraction(n, d) * sign
        if x == 0:
            ctx.check(g == 0, "float-closest", "zero")
            continue
        w = closest(Fraction(x))
        ctx.check(g in w, "float-closest", lambda: "%r became %d/%d, %s is closer" % (sign * x, n, d, sorted(w)[0]))
        if slot is not None and rng.random() < 0.2:
            slot["EditRate"].value = sign * x
            ctx.check(slot["EditRate"].value == r and bytes(slot["EditRate"].data) == struct.pack("<ii", n, d),
                      "float-stored", lambda: "%r stored as %r" % (sign * x, slot["EditRate"].value))
    for x in (float("nan"), float("inf"), -float("inf")):
        ctx.raises((ValueError, OverflowError), "float-bad", AAFRational, x)


def newids(ctx, n, f):
    out = []
    for k in range(n):
        r = ctx.rng.random()
        if r < 0.6 or f is None:
            m = MobID.new()
        else:
            o = f.create.from_name(ctx.rng.choice(["MasterMob", "SourceMob", "CompositionMob"]))
            m = o.mob_id
        out.append(bytes(m.bytes_le))
    return out


def unique(ctx, f):
    """ids made under the worst circumstances still differ"""
    seeded = ctx.rng.random()
    real = time.time, getattr(time, "time_ns")
    state = random.getstate()
    ids = []
    try:
        time.time, time.time_ns = (lambda: 1000000000.0), (lambda: 10 ** 18)
        for _ in range(3):
            random.seed(seeded)
            ids += newids(ctx, 20, f)
        pipes = []
        for k in range(3):
            random.seed(seeded)
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    random.seed(seeded)
                    with os.fdopen(wr, "wb") as w:
                        w.write(b"".join(newids(ctx, 20, None)))
                finally:
                    os._exit(0)
            os.close(wr)
            pipes.append((pid, rd))
        for pid, rd in pipes:
            with os.fdopen(rd, "rb") as r:
                data = r.read()
            os.waitpid(pid, 0)
            if len(data) != 640:
                raise HarnessError("child wrote %d bytes" % len(data))
            ids += [data[i:i + 32] for i in range(0, len(data), 32)]
    finally:
        time.time, time.time_ns = real
        random.setstate(state)
    ctx.note("unique", len(ids))
    ctx.check(len(set(ids)) == len(ids), "unique", lambda: "%d ids, %d different" % (len(ids), len(set(ids))))
    ctx.check(len(set(i[16:] for i in ids)) == len(ids), "unique", "material numbers repeat")
    for i in ids:
        ctx.check(i[:10] == bytes.fromhex("060a2b34010101050101") and i[12] == 0x13 and i[13:16] == b"\0\0\0", "umid-form",
                  lambda: "new id %s is no basic UMID" % i.hex())
        ctx.check(not ambiguous(i) and MobID(urn(i)).bytes_le == i, "umid-form", i.hex())


def case(ctx, i):
    f = None
    if i % 2:
        path = vfs.new("ids-%d.aaf" % i)
        f = aaf2.open(path, "w")
    auids(ctx)
    mobids(ctx)
    rationals(ctx, f)
    unique(ctx, f)
    if f is not None:
        ids = [m.mob_id for m in f.content.mobs]
        ctx.check(len(ids) == len(set(ids)), "unique", "mobs in the file")
        f.content.mobs.clear()
        f.close()
    ctx.sample(["%s=%d" % kv for kv in sorted(ctx.counters.items())])
    vfs.clear()
