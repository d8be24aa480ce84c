"""Keyframes: ordered, one per time, and interpolated along the specified curve."""
import bisect
import math
from fractions import Fraction

import aaf2
from aaf2.interpolation import bezier_interpolate, cubic_interpolate
from aaf2.misc import generate_offset_map
from aaf2.rational import AAFRational
from props.c18 import closest
from vlib import vfs

ID = "C20"
PLAN = {
    "quick": 240, "thorough": 4000,
    "rule": "keyframes are added in random order, repeated, at integer, fractional and float times, and compared with a "
            "dictionary sorted by time; values are asked at, just before and after every keyframe, between and outside, for "
            "constant, linear, bezier and cubic interpolation, and compared with a piecewise oracle: bezier curves by "
            "bisection of the horizontal polynomial (the answer must lie on the curve within a tiny horizontal tolerance), "
            "cubic ones likewise, with handles from an independent computation of the slopes; "
            "offset maps with an independent sum of the speed curve; all again after saving and reopening; distinct by "
            "(interpolation, shape)",
    "require": {"keyframes": 4000, "values_asked": 60000, "bezier_values": 20000, "cubic_values": 5000, "maps": 60, "map_points": 6000,
                "replaced": 400},
    "assumptions": ["times and values are the 32 bit rationals the file stores",
                    "speed maps are evaluated at half frames like the reference implementation"],
}
INTERP = {"constant": "5b6c85a5-0ede-11d3-80a9-006008143e6f", "linear": "5b6c85a4-0ede-11d3-80a9-006008143e6f",
          "bezier": "df394eda-6ac6-4566-8dbe-f28b0bdd781a", "cubic": "a04a5439-8a0e-4cb7-975f-a5b255866883"}
PARAMS = ["PP_IN_TANGENT_POS_U", "PP_IN_TANGENT_VAL_U", "PP_OUT_TANGENT_POS_U", "PP_OUT_TANGENT_VAL_U", "PP_BASE_FRAME_U"]


def definitions(f, rng):
    from uuid import UUID
    d = f.dictionary
    for n, a in INTERP.items():
        d.register_def(f.create.InterpolationDef(a, n, ""))
    d.register_def(f.create.ParameterDef("8d56813d-847e-11d5-935a-50f857c10001", "Level", "", "Rational"))
    d.register_def(f.create.ParameterDef("8d56813d-847e-11d5-935a-50f857c10002", "Count", "", "aafInt32"))
    for k, n in enumerate(PARAMS):
        d.register_def(f.create.ParameterDef(str(UUID(int=0x8d56813d847e11d5935a50f857c10010 + k)), n, "",
                                             rng.choice(["Rational", "Rational", "aafInt32"]) if "TANGENT" not in n else "Rational"))


def stored(x):
    """the fraction a file stores for a number"""
    if isinstance(x, float):
        s = 1 if x >= 0 else -1
        return s * min(closest(Fraction(abs(x))))
    return Fraction(x)


def rtime(rng, style):
    if style == "frames":
        t = rng.randint(-20, 200)
    elif style == "far":
        t = rng.randint(-10 ** 6, 10 ** 6)
    elif style == "fractions":
        t = Fraction(rng.randint(-500, 2000), rng.choice([1, 2, 3, 7, 25, 1001]))
    elif style == "floats":
        t = rng.choice([rng.uniform(-10, 100), rng.randint(0, 50) * 1001 / 24000.0, rng.random(), 0.1 * rng.randint(0, 20)])
    else:
        t = rng.randint(0, 8)
    if rng.random() < 0.2 and not isinstance(t, float):
        t = AAFRational(t)
    return t


def rvalue(rng, style):
    r = rng.random()
    if style == "flat" and r < 0.5:
        return 1
    if r < 0.4:
        return rng.randint(-10, 100)
    if r < 0.7:
        return Fraction(rng.randint(-1000, 1000), rng.choice([1, 3, 8, 100]))
    if r < 0.8:
        return 0
    return rng.choice([rng.uniform(-3, 3), 0.5, 29.97])


class Curve(object):
    def __init__(self, ctx, f, interp, count=False):
        self.ctx, self.rng, self.f, self.interp = ctx, ctx.rng, f, interp
        self.points = {}            # time -> [value, in tangent, out tangent, base frame]
        d = f.dictionary
        self.v = f.create.VaryingValue(d.lookup_parameterdef("Count" if count else "Level"),
                                       d.lookup_interperlationdef(interp))
        self.count = count

    def add(self, t, v, tan=None, base=None):
        rng = self.rng
        hint = rng.choice([None, None, "Proportional", "RelativeLeft"]) if rng.random() < 0.2 else None
        cp = self.v.add_keyframe(t, v, hint)
        self.ctx.note("keyframes")
        key = float(stored(t))
        if key in self.points:
            self.ctx.note("replaced")
        self.points[key] = [float(stored(v)), (0.0, 0.0), (0.0, 0.0), 0]
        self.ctx.check(cp.time == key and cp.value == self.points[key][0], "keyframe", lambda: "added (%r, %r), reads (%r, %r)" % (
            t, v, cp.time, cp.value))
        if hint:
            self.ctx.eq(cp["EditHint"].value, hint, "keyframe", "edit hint")
        if tan or base is not None:
            self.handles(cp, key, tan, base)
        return cp

    def handles(self, cp, key, tan, base):
        props = []
        d = self.f.dictionary
        p = self.points[key]
        if tan is not None:
            for n, x in zip(PARAMS, (tan[0][0], tan[0][1], tan[1][0], tan[1][1])):
                if x == 0 and self.rng.random() < 0.5:
                    continue
                props.append(self.f.create.ConstantValue(d.lookup_parameterdef(n), x))
            p[1] = tuple(float(stored(x)) for x in tan[0])
            p[2] = tuple(float(stored(x)) for x in tan[1])
        if base is not None:
            props.append(self.f.create.ConstantValue(d.lookup_parameterdef(PARAMS[4]), base))
            p[3] = base
        self.rng.shuffle(props)
        cp["ControlPointPointProperties"].value = props

    def judge_list(self, when):
        pl = list(self.v.pointlist)
        got = [(p.time, p.value) for p in pl]
        want = sorted((t, p[0]) for t, p in self.points.items())
        self.ctx.check(got == want, "pointlist", lambda: "%s: keyframes %s, expected %s" % (when, got[:12], want[:12]))
        for p in pl:
            w = self.points[p.time]
            self.ctx.check(p.tangents == [w[1], w[2]], "tangents", lambda: "%s: %s, expected %s" % (when, p.tangents, w[1:3]))
            self.ctx.check(p.base_frame == w[3], "tangents", lambda: "%s: base frame" % when)

    def judge_index(self, t, times):
        i = self.v.nearest_index(t)
        want = max(0, bisect.bisect_right(times, t) - 1)
        self.ctx.check(i == want, "nearest", lambda: "nearest keyframe to %r in %s is %d, expected %d" % (t, times[:10], i, want))

    def judge(self, when):
        ctx, rng = self.ctx, self.rng
        self.judge_list(when)
        times = sorted(self.points)
        if not times:
            return
        ask = set()
        some = times if len(times) < 12 else rng.sample(times, 12)
        for t in some:
            ask |= set((t, math.nextafter(t, -math.inf), math.nextafter(t, math.inf), t - 0.5, t + 0.5, t + 0.1))
            i = times.index(t)
            if i + 1 < len(times):
                u = times[i + 1]
                ask |= set([t + (u - t) * k for k in (0.5, 0.25, 1 / 3.0, 0.999, 1e-6, rng.random(), rng.random())])
        ask |= set((times[0] - 1000, times[-1] + 1000, times[0] - 1e-9, times[-1] + 1e-9))
        for t in sorted(ask):
            got = self.v.value_at(t if rng.random() < 0.8 or t != int(t) else int(t))
            ctx.note("values_asked")
            self.judge_index(t, times)
            ctx.check(isinstance(got, float) and got == got and abs(got) != math.inf, "value", lambda: "%s: value at %r is %r" % (
                when, t, got))
            i = bisect.bisect_right(times, t) - 1
            if i < 0:
                lo = hi = self.points[times[0]][0]
            elif i == len(times) - 1 or self.interp == "constant":
                lo = hi = self.points[times[i]][0]
            else:
                a, b = times[i], times[i + 1]
                p, q = self.points[a], self.points[b]
                if self.interp == "linear":
                    w = p[0] + (q[0] - p[0]) * ((t - a) / (b - a))
                    e = 1e-9 * (abs(p[0]) + abs(q[0]) + 1)
                    lo, hi = w - e, w + e
                elif self.interp == "bezier":
                    lo, hi = bezier_range((a, p[0]), (a + p[2][0], p[0] + p[2][1]), (b + q[1][0], q[0] + q[1][1]), (b, q[0]), t)
                    ctx.note("bezier_values")
                else:
                    k = [(x, self.points[x][0]) for x in times]
                    h = [(a, p[0]), (b, q[0])]
                    m = [slope(k, i), slope(k, i + 1)]
                    lo, hi = bezier_range(h[0], (a + 0.4 * (b - a), p[0] + m[0] * 0.4 * (b - a)),
                                          (b - 0.4 * (b - a), q[0] - m[1] * 0.4 * (b - a)), h[1], t)
                    ctx.note("cubic_values")
            ctx.check(lo <= got <= hi, "value-" + self.interp, lambda: "%s: %s value at %r is %r, expected %r..%r (keyframes %s)" % (
                when, self.interp, t, got, lo, hi, [(x, self.points[x]) for x in times[max(i, 0):max(i, 0) + 2]]))


# ---- bezier oracle -----------------------------------------------------------------------------------------------

def clamp(p0, p1, p2, p3):
    """handles reach at most across the segment: too long ones are cut along their line, backward ones stand upright"""
    def cut(o, h, x):
        return (x, o[1] + (h[1] - o[1]) * ((x - o[0]) / (h[0] - o[0])))
    if p1[0] > p3[0]:
        p1 = cut(p0, p1, p3[0])
    elif p1[0] < p0[0]:
        p1 = (p0[0], p1[1])
    if p2[0] < p0[0]:
        p2 = cut(p3, p2, p0[0])
    elif p2[0] > p3[0]:
        p2 = (p3[0], p2[1])
    return p1, p2


def slope(k, i):
    """steepness of a cubic curve at keyframe i: flat at the ends and at turning points, else the slope between the neighbours
    scaled by how far this keyframe's value is from the middle of theirs"""
    if i == 0 or i == len(k) - 1:
        return 0.0
    (xa, ya), (xb, yb), (xc, yc) = k[i - 1:i + 2]
    if (yb - ya) * (yc - yb) <= 0:
        return 0.0
    return (yc - ya) / (xc - xa) * 2 * min(abs(yc - yb), abs(yb - ya)) / abs(yc - ya)


def bez(a, b, c, d, s):
    u = 1 - s
    ab, bc, cd = a * u + b * s, b * u + c * s, c * u + d * s
    return (ab * u + bc * s) * u + (bc * u + cd * s) * s


def solve(xs, x):
    """parameter where the monotone curve reaches x"""
    lo, hi = 0.0, 1.0
    if x <= 0:
        return 0.0
    if x >= 1:
        return 1.0
    for _ in range(70):
        m = (lo + hi) / 2
        if bez(xs[0], xs[1], xs[2], xs[3], m) < x:
            lo = m
        else:
            hi = m
    return (lo + hi) / 2


def bezier_range(p0, p1, p2, p3, x):
    """lowest and highest value of the curve in a tiny neighbourhood of x"""
    p1, p2 = clamp(p0, p1, p2, p3)
    n = p3[0] - p0[0]
    xs = [0.0, (p1[0] - p0[0]) / n, (p2[0] - p0[0]) / n, 1.0]
    ys = [p0[1], p1[1], p2[1], p3[1]]
    scale = max(ys) - min(ys) + max(abs(y) for y in ys) * 1e-6
    # rounding of the times themselves counts as horizontal tolerance
    tol = 2e-8 + 64 * math.ulp(max(abs(p0[0]), abs(p3[0]), abs(x))) / n
    u = (x - p0[0]) / n
    a, b = solve(xs, u - tol), solve(xs, u + tol)
    vals = [bez(ys[0], ys[1], ys[2], ys[3], a + (b - a) * k / 64.0) for k in range(65)]
    e = 1e-6 * scale + 1e-12
    return min(vals) - e, max(vals) + e


def rtangent(rng, span, vspan, style):
    """offset of a handle: time and value"""
    r = rng.random()
    if style == "third":
        return (span / 3, 0)
    if r < 0.15:
        x = 0
    elif r < 0.5:
        x = Fraction(rng.randint(0, 100), 100) * span
    elif r < 0.6:
        x = span * rng.choice([1, Fraction(1, 2), Fraction(1, 3), Fraction(2, 3)])
    elif r < 0.75:
        x = span * Fraction(rng.randint(100, 1000), 100)
    elif r < 0.85:
        x = -span * Fraction(rng.randint(1, 300), 100)
    else:
        x = span * Fraction(rng.randint(1, 10 ** 4), 10 ** 6)
    y = vspan * Fraction(rng.randint(-300, 300), 100) if rng.random() < 0.8 else 0
    return (x, y)


def limit(x):
    x = Fraction(x)
    return x if abs(x.numerator) < 0x7fffffff and x.denominator < 0x7fffffff else x.limit_denominator(100000)


def curves(ctx, f):
    rng = ctx.rng
    out = []
    mob = f.create.CompositionMob("m")
    f.content.mobs.append(mob)
    o = f.create.OperationDef("0c3bea40-fc05-11d2-8a29-0050040ef7d2", "Op", "")
    f.dictionary.register_def(o)
    o.media_kind = "picture"
    o["IsTimeWarp"].value, o["Bypass"].value, o["NumberInputs"].value = False, 1, 1
    o["OperationCategory"].value = "OperationCategory_Effect"
    for interp in ("constant", "linear", "bezier", "cubic"):
        count = interp != "bezier" and rng.random() < 0.3
        c = Curve(ctx, f, interp, count)
        g = f.create.OperationGroup(o.auid, 10, "picture")
        mob.create_timeline_slot(25).segment = g
        attach = rng.random() < 0.5
        if attach:
            g.parameters.append(c.v)
        style = rng.choice(["frames", "far", "fractions", "floats", "small"])
        vstyle = rng.choice(["any", "flat"])
        for k in range(rng.choice([1, 2, 3, 8, 20])):
            v = rng.randint(-100, 100) if count else rvalue(rng, vstyle)
            t = rtime(rng, style)
            if rng.random() < 0.15 and c.points:
                t = rng.choice([x for x in c.points])
            c.add(t, v)
            if rng.random() < 0.2:
                c.judge_list("after adding")
        if interp == "bezier" and rng.random() < 0.9:
            ts = sorted(c.points)
            tstyle = rng.choice(["any", "any", "any", "third", "same"])
            for i, t in enumerate(ts):
                span = [stored(ts[i]) - stored(ts[i - 1]) if i else Fraction(1), stored(ts[i + 1]) - stored(ts[i]) if i + 1 < len(ts) else Fraction(1)]
                vspan = Fraction(rng.choice([1, 10, 100]))
                a, b = rtangent(rng, span[0], vspan, tstyle), rtangent(rng, span[1], vspan, tstyle)
                if tstyle == "same":
                    a, b = (0, 0), (0, 0)
                tan = ((limit(-a[0]), limit(-a[1])), (limit(b[0]), limit(b[1])))
                cp = c.v.pointlist[i]
                c.handles(cp, t, tan, None)
        c.judge("in session")
        if not attach:
            g.parameters.append(c.v)
        out.append((g, c))
        ctx.distinct((interp, style, vstyle, len(c.points) if len(c.points) < 4 else 4, count))
    return mob, out


# ---- curves given directly ----------------------------------------------------------------------------------------

def direct(ctx):
    rng = ctx.rng
    for _ in range(120):
        off = rng.choice([0, 0, 100, -50, 86400, 10 ** 6])
        n = rng.choice([1, 2, 10, 24, 100, 0.04, 5000, rng.uniform(0.1, 100)])
        s = rng.choice([1, 10, 0.01, 1000])
        y = lambda: rng.choice([0, 1, rng.uniform(-1, 1), rng.uniform(-1, 1)]) * s
        p0, p3 = (off, y()), (off + n, y())
        style = rng.random()
        if style < 0.15:
            p1, p2 = (off + n / 3.0, y()), (off + n * 2 / 3.0, y())
        elif style < 0.25:
            p1, p2 = p0, p3
        elif style < 0.35:
            p1, p2 = (off + n, y()), (off, y())
        elif style < 0.45:
            h = rng.choice([0.25, 0.5, 0.1])
            p1, p2 = (off + n * h, p0[1]), (off + n - n * h, p3[1])
        else:
            p1, p2 = (off + n * rng.uniform(-1, 3), y()), (off + n - n * rng.uniform(-1, 3), y())
        for _ in range(20):
            x = off + n * rng.choice([0, 1, 0.5, rng.random(), rng.random(), rng.random(), 1e-9, 1 - 1e-9])
            x = min(max(x, p0[0]), p3[0])
            got = bezier_interpolate(p0, p1, p2, p3, x)
            lo, hi = bezier_range(p0, p1, p2, p3, x)
            ctx.note("values_asked")
            ctx.note("bezier_values")
            ctx.check(lo <= got <= hi, "value-bezier", lambda: "curve %s at %r is %r, expected %r..%r" % ((p0, p1, p2, p3), x, got, lo, hi))
    # cubic: shift, scale, reversal, straight lines
    for _ in range(60):
        ts = sorted(rng.sample(range(0, 1000), 4))
        vs = [rng.choice([rng.uniform(-10, 10), rng.randint(-3, 3)]) for _ in range(4)]
        if rng.random() < 0.4:
            vs.sort(reverse=rng.random() < 0.5)
        P = list(zip(ts, vs))
        for _ in range(8):
            t = rng.choice([ts[1], ts[2], rng.uniform(ts[1], ts[2]), rng.uniform(ts[1], ts[2])])
            v = cubic_interpolate(*(P + [t]))
            e = 1e-5 * (max(vs) - min(vs) + 1)
            ctx.note("values_asked")
            ctx.check(min(vs[1:3]) - e <= v <= max(vs[1:3]) + e, "value-cubic", lambda: "%s at %r is %r" % (P, t, v))
            if t in (ts[1], ts[2]):
                ctx.check(abs(v - dict(P)[t]) <= e, "value-cubic", lambda: "%s at keyframe %r is %r" % (P, t, v))
            k, m, d = rng.choice([2, 0.5, 10]), rng.choice([-1, 3, 0.1]), rng.randint(-100, 100)
            Q = [(a * k + d, b * m + d) for a, b in P]
            ctx.check(abs(cubic_interpolate(*(Q + [t * k + d])) - (v * m + d)) <= e * abs(m) * 2 + 1e-9, "cubic-affine",
                      lambda: "%s scaled" % P)
            R = [(-a, b) for a, b in reversed(P)]
            ctx.check(abs(cubic_interpolate(*(R + [-t])) - v) <= e, "cubic-reversal", lambda: "%s reversed" % P)
        n, v0, sl = rng.choice([1, 10, 25]), rng.uniform(-5, 5), rng.uniform(-2, 2)
        P = [(k * n, v0 + sl * k * n) for k in range(4)]
        t = rng.uniform(n, 2 * n)
        ctx.check(abs(cubic_interpolate(*(P + [t])) - (v0 + sl * t)) <= 1e-6 * (1 + abs(sl) * n), "cubic-line",
                  lambda: "line %s at %r" % (P, t))


# ---- offset maps --------------------------------------------------------------------------------------------------

def offsets(ctx, f):
    rng = ctx.rng
    interp = rng.choice(["constant", "linear", "linear", "bezier", "cubic"])
    c = Curve(ctx, f, interp)
    base = rng.choice([None, 0, 5, -3])
    first = rng.choice([0, 0, 0, 5, -10, 30])
    n = rng.choice([1, 2, 5])
    ts = [first] + sorted(rng.sample(range(first + 1, first + 120), n - 1))
    for t in rng.sample(ts, len(ts)):
        c.add(t, rng.choice([1, 2, -1, 0, Fraction(1, 2), Fraction(rng.randint(-200, 200), 100)]), None, base if t == first else None)
    for _ in range(3):
        start = rng.choice([0, first, first, rng.randint(first - 20, first + 50)])
        end = rng.choice([None, start, start + 1, start + rng.randint(0, 80)])
        last = int(max(c.points)) if end is None else end
        if start > last:
            ctx.raises((ValueError,), "map-range", generate_offset_map, c.v, start, end)
            continue
        got = generate_offset_map(c.v, start, end)
        ctx.note("maps")
        want = [start + k * 0.5 for k in range(2 * (last - start) + 1)]
        ctx.check([t for t, v in got] == want, "map-times", lambda: "map from %s to %s has times %s" % (start, end, [t for t, v in got][:6]))
        # the offset grows by the speed over each half frame, and is the base frame at the first keyframe
        speed = {}

        def sp(t):
            if t not in speed:
                speed[t] = c.v.value_at(t)
            return speed[t]

        def grow(a):
            xs = [sp(a + 0.1 * (k - 1)) for k in range(6)]
            return 0.1 * (sum(xs) - (xs[0] + xs[5]) / 2)
        lim = max(abs(p[0]) for p in c.points.values()) * 1.5 + 1
        if interp == "bezier":
            lim *= 3
        for (t, v), (u, w) in zip(got, got[1:]):
            ctx.note("map_points")
            # keyframes that jump may fall on either side of a sample
            tol = 1e-6 * lim if interp != "constant" or not any(t - 0.21 < p < u + 0.01 for p in c.points) else 0.11 * 2 * lim
            ctx.check(abs((w - v) - grow(t)) <= tol, "map-growth", lambda: "offset grows by %r between %r and %r, speed %r" % (
                w - v, t, u, [sp(t + 0.1 * k) for k in range(-1, 5)]))
        at = dict(got)
        if first in at:
            ctx.check(abs(at[first] - (base or 0)) < 1e-9, "map-base", lambda: "offset at the first keyframe is %r" % at[first])
    ctx.distinct(("map", interp, first, base, n))


def case(ctx, i):
    rng = ctx.rng
    path = vfs.new("curves-%d.aaf" % i)
    f = aaf2.open(path, "w")
    definitions(f, rng)
    mob, out = curves(ctx, f)
    for _ in range(2):
        offsets(ctx, f)
    direct(ctx)
    k = f.create.ConstantValue(f.dictionary.lookup_parameterdef("Level"), Fraction(5, 3))
    ctx.check(k.value_at(rng.random()) == Fraction(5, 3), "value", "constant value")
    ids = mob.mob_id
    f.close()
    for mode in ("r", "r+", "r"):
        f = aaf2.open(path, mode)
        m = f.content.mobs.get(ids)
        for slot, (_, c) in zip(list(m.slots), out):
            c.f = f
            c.v = [p for p in slot.segment.parameters][0]
            c.judge("reopened (%s)" % mode)
            if mode == "r+":
                for _ in range(3):
                    c.add(rtime(rng, "frames"), 5)
                c.judge("added after reopening")
        f.close()
    ctx.sample(["%s=%d" % kv for kv in sorted(ctx.counters.items())])
    vfs.clear()
