"""Timelines: slot ids, component positions, lengths, clip chains and mob dependencies."""
import aaf2
from aaf2.mobid import MobID
from vlib import vfs

ID = "C19"
PLAN = {
    "quick": 320, "thorough": 6000,
    "rule": "part a: sequences of clips, fillers, groups and transitions of random lengths, edited by insertion, removal, "
            "replacement and changed lengths, are asked for positions, the component at every boundary, before and after it "
            "and at random times, and for the slot length, each compared with a plain summation over the specification, in "
            "session and reopened; part b: mobs get slots in any id pattern; part c: graphs of mobs whose references sit in "
            "clips, sequences, groups, nested scopes and selectors, with cycles, missing and empty references, are asked for "
            "clip chains and dependants, compared with a search over the specification; distinct by (part, shape)",
    "require": {"times_asked": 40000, "slots_made": 3000, "dependants": 1200, "walks": 800, "cyclic": 40,
                "sequence_edits": 1500},
    "assumptions": ["transitions lie between components they fit into and do not overlap each other",
                    "where start offsets along a chain would lead to different components, walks are not judged"],
}
TR = "Transition"


def definitions(f):
    o = f.create.OperationDef("0c3bea40-fc05-11d2-8a29-0050040ef7d2", "Dissolve", "")
    f.dictionary.register_def(o)
    o.media_kind = "picture"
    o["IsTimeWarp"].value = False
    o["Bypass"].value = 1
    o["NumberInputs"].value = 2
    o["OperationCategory"].value = "OperationCategory_Effect"
    return o


# ---- sequences ------------------------------------------------------------------------------------------------------

def rlen(rng):
    return rng.choice([1, 1, 2, 3, 10, 25, 100, 1000, 86400, 1 << 20, rng.randint(1, 200)])


class Seq(object):
    """[(kind, length, object)]; transitions only between components, never overlapping each other"""

    def __init__(self, ctx, f, op, kind):
        self.ctx, self.rng, self.f, self.op, self.kind = ctx, ctx.rng, f, op, kind
        self.items = []

    def clip(self, length=None):
        rng = self.rng
        k = rng.choice(["SourceClip", "Filler", "Filler", "SourceClip", "EssenceGroup", "OperationGroup", "Sequence"])
        n = rlen(rng) if length is None else length
        c = self.f.create
        if k == "SourceClip":
            o = c.SourceClip(rng.randint(0, 50), n, media_kind=self.kind)
        elif k == "OperationGroup":
            o = c.OperationGroup(self.op.auid, n, self.kind)
        elif k == "EssenceGroup":
            o = c.EssenceGroup(self.kind, n)
            o["Choices"].value = []
        elif k == "Sequence":
            o = c.Sequence(self.kind, n)
        else:
            o = c.Filler(self.kind, n)
        return [k, n, o]

    def transition(self, n):
        o = self.f.create.Transition(self.kind, n)
        o["CutPoint"].value = n // 2
        o["OperationGroup"].value = self.f.create.OperationGroup(self.op.auid, n, self.kind)
        return [TR, n, o]

    def room(self, i):
        """length a transition placed between components i and i+1 may have"""
        it = self.items
        left, right = it[i][1], it[i + 1][1]
        if i > 0 and it[i - 1][0] == TR:
            left -= it[i - 1][1]
        if i + 2 < len(it) and it[i + 2][0] == TR:
            right -= it[i + 2][1]
        return min(left, right)

    def edit(self, seq):
        rng, it = self.rng, self.items
        r = rng.random()
        plain = [i for i in range(len(it)) if it[i][0] != TR and (i == 0 or it[i - 1][0] != TR) and
                 (i + 1 == len(it) or it[i + 1][0] != TR)]
        gaps = [i for i in range(len(it) + 1) if not (0 < i and it[i - 1][0] == TR) and not (i < len(it) and it[i][0] == TR)]
        self.ctx.note("sequence_edits")
        if r < 0.35 or len(it) < 2:
            c = self.clip()
            at = rng.choice(gaps + [len(it)])
            if at == len(it):
                seq.components.append(c[2])
            else:
                seq.components.insert(at, c[2])
            it.insert(at, c)
        elif r < 0.65:
            pairs = [i for i in range(len(it) - 1) if it[i][0] != TR and it[i + 1][0] != TR and self.room(i) > 0]
            if pairs:
                i = rng.choice(pairs)
                m = self.room(i)
                t = self.transition(rng.choice([1, m, (m + 1) // 2, rng.randint(1, m)]))
                seq.components.insert(i + 1, t[2])
                it.insert(i + 1, t)
        elif r < 0.75 and plain:
            i = rng.choice(plain)
            seq.components.pop(i)
            del it[i]
        elif r < 0.85:
            trs = [i for i in range(len(it)) if it[i][0] == TR]
            if trs:
                i = rng.choice(trs)
                seq.components.pop(i)
                del it[i]
        elif r < 0.93 and plain:
            i = rng.choice(plain)
            it[i] = self.clip()
            seq.components[i] = it[i][2]
        elif plain:
            i = rng.choice(plain)
            it[i][1] = rlen(rng)
            it[i][2].length = it[i][1]

    def spans(self):
        """[(start, end, first visible, after last visible)]"""
        out, t = [], 0
        it = self.items
        for i, (k, n, _) in enumerate(it):
            if k == TR:
                out.append([t - n, t, t - n, t])
                t -= n
            else:
                a = t + (it[i - 1][1] if i and it[i - 1][0] == TR else 0)
                b = t + n - (it[i + 1][1] if i + 1 < len(it) and it[i + 1][0] == TR else 0)
                out.append([t, t + n, a, b])
                t += n
        return out, t

    def judge(self, slot, when, objects=True):
        ctx, rng = self.ctx, self.rng
        seq = slot.segment
        comps = list(seq.components)
        spans, total = self.spans()
        ctx.eq([(type(c).__name__, c.length) for c in comps], [(k, n) for k, n, _ in self.items], "components", when)
        got = list(seq.positions())
        ctx.eq([(i, p) for i, p, _ in got], [(i, s[0]) for i, s in enumerate(spans)], "positions",
               "%s: positions of %s" % (when, [(k[:2], n) for k, n, _ in self.items]))
        ctx.check(all(g[2] is c for g, c in zip(got, comps)), "positions", lambda: "%s: components in positions()" % when)
        ctx.eq(slot.length, total, "slot-length", when)
        times = set([0, -1, -5, total, total + 1, total + 1000])
        for s in spans:
            for x in s:
                times |= set((x - 1, x, x + 1))
        times = sorted(times)
        if len(times) > 60:
            times = rng.sample(times, 60)
        times += [rng.randint(0, max(total, 1)) for _ in range(15)]
        for t in times:
            if not comps:
                break
            if t <= 0:
                want = 0
            elif t >= total:
                want = len(comps) - 1
            else:
                want = [i for i, s in enumerate(spans) if s[2] <= t < s[3]]
                assert len(want) == 1, (t, spans)
                want = want[0]
            ctx.note("times_asked")
            i = seq.index_at_time(t)
            ctx.check(i == want, "at-time", lambda: "%s: time %d of %s is in component %s, expected %d" % (
                when, t, [(k[:2], n) for k, n, _ in self.items], i, want))
            ctx.check(seq.component_at_time(t) is comps[want], "at-time", lambda: "%s: component at %d" % (when, t))
        ctx.distinct(("seq", len(comps) > 8, tuple(k for k, _, _ in self.items)[:8]))


def sequences(ctx, f, op):
    rng = ctx.rng
    mob = f.create.CompositionMob("seq")
    f.content.mobs.append(mob)
    out = []
    for k in range(rng.choice([1, 2, 3])):
        kind = rng.choice(["picture", "sound"])
        slot = rng.choice([mob.create_picture_slot, mob.create_sound_slot, mob.create_empty_sequence_slot,
                           lambda r: mob.create_empty_sequence_slot(r, media_kind=kind)])(rng.choice([25, 24, "30000/1001"]))
        ctx.check(len(slot.segment.components) == 0 and slot.length == 0, "slot-length", "empty sequence")
        s = Seq(ctx, f, op, kind)
        for _ in range(rng.choice([3, 10, 25, 40])):
            s.edit(slot.segment)
            if rng.random() < 0.15:
                s.judge(slot, "in session")
        s.judge(slot, "in session")
        out.append((mob.mob_id, slot.slot_id, s))
    # a nested scope is as long as its longest slot
    if rng.random() < 0.5:
        sc = f.create.NestedScope(rng.choice(["picture", "sound"]))
        lens = []
        slots = []
        for k in range(rng.choice([1, 2, 4])):
            n = rlen(rng)
            ts = f.create.Filler("picture", n) if rng.random() < 0.5 else f.create.Sequence("picture", n)
            slots.append(ts)
            lens.append(n)
        sc["Slots"].value = slots
        slot = mob.create_timeline_slot(25)
        slot.segment = sc
        ctx.eq(slot.length, max(lens), "slot-length", "nested scope")
    return out


# ---- slot ids ------------------------------------------------------------------------------------------------------

def slotids(ctx, f):
    rng = ctx.rng
    out = {}
    for k in range(rng.choice([2, 4])):
        mob = f.create.from_name(rng.choice(["MasterMob", "CompositionMob", "SourceMob"]))
        f.content.mobs.append(mob)
        if type(mob).__name__ == "SourceMob":
            mob.descriptor = f.create.ImportDescriptor()
        have = []
        for _ in range(rng.choice([3, 12, 30])):
            r = rng.random()
            rate = rng.choice([25, 24, 48000, "24000/1001", 29.97])
            if r < 0.45:
                start = 0 if 0 in have else 1
                want = next(i for i in range(start, start + len(have) + 2) if i not in have)
                make = rng.choice(["timeline", "picture", "sound", "empty"] +
                                  (["source", "timecode"] if type(mob).__name__ == "SourceMob" else []))
                if make == "timeline":
                    s = mob.create_timeline_slot(rate)
                    s.segment = f.create.Filler("picture", 5)
                elif make == "picture":
                    s = mob.create_picture_slot(rate)
                    ctx.eq((s.media_kind, type(s.segment).__name__), ("Picture", "Sequence"), "slot-made", "picture slot")
                elif make == "sound":
                    s = mob.create_sound_slot(rate)
                    ctx.eq((s.media_kind, type(s.segment).__name__), ("Sound", "Sequence"), "slot-made", "sound slot")
                elif make == "empty":
                    s = mob.create_empty_sequence_slot(rate, media_kind="sound")
                elif make == "source":
                    s = mob.create_empty_slot(rate, "sound")
                    ctx.eq(type(s.segment).__name__, "SourceClip", "slot-made", "source slot")
                else:
                    fps = rng.choice([24, 25, 30])
                    n = rng.choice([None, 1000])
                    drop = rng.random() < 0.5
                    s = mob.create_timecode_slot(rate, fps, drop, n)
                    ctx.eq((s.segment.fps, bool(s.segment.drop), s.segment.start, s.segment.length, s.length),
                           (fps, drop, 0, n or fps * 43200, n or fps * 43200), "slot-made", "timecode slot")
                ctx.eq(s.slot_id, want, "lowest-id", "with ids %s the next slot" % sorted(have))
            elif r < 0.7:
                want = rng.choice([0, 1, 2, 5, 10, 100, 0x7fffffff, rng.randint(0, 40)])
                if want in have:
                    before = [s.slot_id for s in mob.slots]
                    ctx.raises((ValueError,), "taken-id", mob.create_timeline_slot, rate, want)
                    ctx.raises((ValueError,), "taken-id", mob.create_empty_sequence_slot, rate, want)
                    ctx.eq([s.slot_id for s in mob.slots], before, "taken-id", "slots after a refused id")
                    continue
                if rng.random() < 0.7:
                    s = mob.create_timeline_slot(rate, want)
                    s.segment = f.create.Filler("picture", 5)
                else:
                    s = mob.create_empty_sequence_slot(rate, want, "picture")
                ctx.eq(s.slot_id, want, "given-id", "slot with a given id")
            elif r < 0.85 and have:
                gone = rng.choice(have)
                for i, s in enumerate(mob.slots):
                    if s.slot_id == gone:
                        break
                mob.slots.pop(i)
                have.remove(gone)
                continue
            else:
                want = rng.randint(0, 60)
                if want in have:
                    continue
                s = rng.choice([f.create.StaticMobSlot, f.create.EventMobSlot, f.create.TimelineMobSlot])(want)
                if type(s).__name__ != "StaticMobSlot":
                    s.edit_rate = 25
                s.segment = f.create.Filler("picture", 9)
                mob.slots.insert(rng.randint(0, len(have)), s)
            have.append(want)
            ctx.note("slots_made")
            if type(s).__name__ != "StaticMobSlot":
                r = aaf2.rational.AAFRational(rate) if s.edit_rate != 25 else 25
                ctx.check(s.edit_rate == r, "slot-rate", lambda: "%s for %s" % (s.edit_rate, rate))
            ctx.check(mob.slot_at(want) is s, "slot-at", "slot_at(%d)" % want)
        ids = [s.slot_id for s in mob.slots]
        ctx.check(sorted(ids) == sorted(have), "slot-ids", lambda: "%s, expected %s" % (sorted(ids), sorted(have)))
        for i in set(have) | set([0, 1, 7]):
            if i in have:
                ctx.eq(mob.slot_at(i).slot_id, i, "slot-at", "")
            else:
                ctx.raises((IndexError,), "slot-at", mob.slot_at, i)
        out[bytes(mob.mob_id.bytes_le)] = ids
        ctx.distinct(("slots", len(have) > 8, 0 in have, sorted(have)[:4]))
    return out


# ---- references ----------------------------------------------------------------------------------------------------

def ref_clip(ctx, f, target, spec, start=None):
    """a clip to (mob key, slot id), to a missing mob or to nothing"""
    rng = ctx.rng
    c = f.create.SourceClip(rng.choice([0, 0, 3]) if start is None else start, rng.randint(1, 50), media_kind="picture")
    if target is not None:
        c.mob_id = MobID(bytes_le=target[0])
        c.slot_id = target[1]
    return c


def graph(ctx, f, op):
    rng = ctx.rng
    n = rng.choice([2, 4, 8, 20])
    cyc = rng.random() < 0.4
    mobs = []
    spec = {}           # key -> set of keys referenced (existing ones)
    nslots = {}
    for k in range(n):
        m = f.create.from_name(rng.choice(["MasterMob", "CompositionMob", "SourceMob"]))
        m.name = "mob %d" % k
        if type(m).__name__ == "SourceMob":
            m.descriptor = f.create.ImportDescriptor()
        f.content.mobs.append(m)
        mobs.append(m)
    keys = [bytes(m.mob_id.bytes_le) for m in mobs]
    for k in keys:
        nslots[k] = rng.choice([1, 1, 2, 4])
    walks = {}          # (key, slot) -> description of the segment
    clips = []
    for k, m in enumerate(mobs):
        refs = spec[keys[k]] = set()
        for sid in range(1, nslots[keys[k]] + 1):
            slot = m.create_timeline_slot(25)
            pool = keys if cyc else keys[k + 1:]

            def target():
                r = rng.random()
                if r < 0.1:
                    return None
                if r < 0.2 or not pool:
                    return (bytes(MobID.new().bytes_le), 1)
                t = rng.choice(pool)
                refs.add(t)
                return (t, rng.randint(1, nslots[t]))
            kind = rng.choice(["clip", "clip", "clip", "sequence", "sequence", "filler", "group", "scope", "selector", "choices",
                               "deep", "transition"])
            if kind == "clip":
                t = target()
                seg = ref_clip(ctx, f, t, spec)
                clips.append((seg, t))
                walks[keys[k], sid] = ("clip", seg, t)
            elif kind == "sequence":
                seg = f.create.Sequence("picture")
                items = []
                for _ in range(rng.choice([1, 2, 5])):
                    if rng.random() < 0.8:
                        t = target()
                        c = ref_clip(ctx, f, t, spec)
                        clips.append((c, t))
                        items.append(("clip", c, t))
                    else:
                        c = f.create.Filler("picture", rng.randint(1, 30))
                        items.append(("other", c, None))
                    seg.components.append(c)
                walks[keys[k], sid] = ("sequence", seg, items)
            elif kind == "filler":
                seg = f.create.Filler("picture", 10)
                walks[keys[k], sid] = ("end", seg, None)
            elif kind == "group":
                seg = f.create.OperationGroup(op.auid, 10, "picture")
                for _ in range(rng.choice([1, 2])):
                    t = target()
                    c = ref_clip(ctx, f, t, spec)
                    clips.append((c, t))
                    seg.segments.append(c)
                walks[keys[k], sid] = ("end", seg, None)
            elif kind == "scope":
                seg = f.create.NestedScope("picture", 10)
                t = target()
                clips.append((ref_clip(ctx, f, t, spec), t))
                seg["Slots"].value = [clips[-1][0], f.create.Filler("picture", 10)]
            elif kind == "selector":
                seg = f.create.Selector("picture", 10)
                t = target()
                seg["Selected"].value = ref_clip(ctx, f, t, spec)
                t2 = target()
                seg["Alternates"].value = [ref_clip(ctx, f, t2, spec), f.create.Filler("picture", 10)]
            elif kind == "choices":
                seg = f.create.EssenceGroup("picture", 10)
                seg["Choices"].value = [ref_clip(ctx, f, target(), spec) for _ in range(rng.choice([0, 2]))]
                walks[keys[k], sid] = ("end", seg, None)
            elif kind == "transition":
                seg = f.create.Sequence("picture")
                tr = f.create.Transition("picture", 1)
                tr["CutPoint"].value = 0
                g = f.create.OperationGroup(op.auid, 1, "picture")
                g.segments.append(ref_clip(ctx, f, target(), spec))
                tr["OperationGroup"].value = g
                seg.components.extend([f.create.Filler("picture", 5), tr, f.create.Filler("picture", 5)])
            else:
                seg = f.create.Sequence("picture")
                q = f.create.Sequence("picture")
                g = f.create.OperationGroup(op.auid, 10, "picture")
                g.segments.append(ref_clip(ctx, f, target(), spec))
                q.components.append(g)
                seg.components.append(q)
            slot.segment = seg
    if cyc:
        ctx.note("cyclic")
    ctx.distinct(("graph", n, cyc, tuple(sorted(len(v) for v in spec.values()))[:6]))
    return keys, spec, walks, clips


def judge_deps(ctx, f, keys, spec, when):
    mobs = {bytes(m.mob_id.bytes_le): m for m in f.content.mobs}
    reach = {}
    for k in keys:
        seen, todo = set(), [k]
        while todo:
            for t in spec[todo.pop()]:
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        reach[k] = seen
    for k in keys:
        got = [bytes(m.mob_id.bytes_le) for m in mobs[k].dependant_mobs()]
        ctx.note("dependants")
        name = lambda x: mobs[x].name
        ctx.check(len(got) == len(set(got)), "dependants-once", lambda: "%s: %s yields %s" % (when, name(k), [name(x) for x in got]))
        ctx.check(set(got) == reach[k] - set([k]), "dependants", lambda: "%s: %s depends on %s, expected %s" % (
            when, name(k), sorted(name(x) for x in got), sorted(name(x) for x in reach[k] - set([k]))))
        at = {x: i for i, x in enumerate(got)}
        for a in got:
            for b in spec[a]:
                # b comes first unless it depends on a itself
                if b in at and a not in reach[b] and a != b:
                    ctx.check(at[b] < at[a], "dependants-order", lambda: "%s: of %s's dependants %s comes before %s, which it needs" % (
                        when, name(k), name(a), name(b)))


def chain(walks, keys, key, start_a, start_b):
    """what walking a clip to (key, slot) at a start yields: tuples of (mob key, slot, path); None if not judged.
    start_a: the clip's own start, start_b: with the offsets gathered on the way"""
    out = []
    seen = set()
    while True:
        if key in seen:
            return None
        seen.add(key)
        w = walks.get(key)
        if w is None:
            return None
        kind, seg, x = w
        if kind == "end":
            out.append((key, None))
            return out
        if kind == "clip":
            nxt, t = seg, x
            out.append((key, None))
            start_b = start_b + seg.start
        else:
            def at(t):
                i, p = 0, 0
                for i, item in enumerate(x):
                    n = item[1].length
                    if t < p + n:
                        break
                    p += n
                return i, max(t - p, 0)
            i, off = at(start_a)
            j, offb = at(start_b)
            if i != j:
                return None
            if x[i][0] != "clip":
                return None
            nxt, t = x[i][1], x[i][2]
            out.append((key, i))
            start_b = nxt.start + offb
        start_a = nxt.start
        if t is None or t[0] not in keys:
            return out
        key = t


def judge_walks(ctx, f, walks, clips, when, keys):
    mobs = {bytes(m.mob_id.bytes_le): m for m in f.content.mobs}

    def locate(key, i):
        seg = mobs[key[0]].slot_at(key[1]).segment
        return seg if i is None else seg.components[i]
    for n, (c, t) in enumerate(clips):
        live = c
        if t is None:
            ctx.check(live.mob is None and live.slot is None, "resolve", "%s: a clip to nothing" % when)
            ctx.eq(list(live.walk()), [], "walk", "clip to nothing")
            continue
        if t[0] not in mobs:
            ctx.check(live.mob is None and live.slot is None, "resolve", "%s: a clip to a missing mob" % when)
            ctx.eq(list(live.walk()), [], "walk", "clip to a missing mob")
            continue
        ctx.check(live.mob is mobs[t[0]], "resolve", lambda: "%s: clip resolves to %s" % (when, live.mob))
        ctx.check(live.slot is mobs[t[0]].slot_at(t[1]) and live.slot.slot_id == t[1], "resolve", "%s: slot" % when)
        want = chain(walks, keys, t, live.start, live.start)
        if want is None:
            continue
        got = list(live.walk())
        ctx.note("walks")
        ctx.notemax("walk_length", len(got))
        exp = [locate(k, i) for k, i in want]
        ctx.check(len(got) == len(exp) and all(a is b for a, b in zip(got, exp)), "walk", lambda: "%s: walk yields %s, expected %s" % (
            when, got, exp))


def source_clips(ctx, f):
    rng = ctx.rng
    for m in list(f.content.mobs):
        for s in list(m.slots):
            if rng.random() < 0.3 and type(s).__name__ == "TimelineMobSlot":
                start = rng.choice([None, 0, 1, 5, 10 ** 6])
                length = rng.choice([None, None, 1, 77])
                c = m.create_source_clip(s.slot_id, start, length)
                ctx.check(c.mob is m and c.slot is s and c.mob_id == m.mob_id and c.slot_id == s.slot_id, "made-clip", "target")
                ctx.eq((c.start, c.length), (start or 0, length or max(s.length - (start or 0), 0)), "made-clip", "start and length")
                ctx.eq(c.media_kind, s.media_kind, "made-clip", "media kind")
                c = m.create_source_clip(s.slot_id, media_kind="sound")
                ctx.eq((c.media_kind, c.length), ("Sound", s.length), "made-clip", "media kind")
        ctx.raises((IndexError,), "made-clip", m.create_source_clip, 123456)


def collect(f, walks, keys):
    """the clips of a reopened file in place of those of the specification"""
    mobs = {bytes(m.mob_id.bytes_le): m for m in f.content.mobs}
    out, clips = {}, []
    for (k, sid), (kind, seg, x) in walks.items():
        s = mobs[k].slot_at(sid).segment
        if kind == "clip":
            out[k, sid] = (kind, s, x)
            clips.append((s, x))
        elif kind == "sequence":
            items = [(a, o, t) for (a, _, t), o in zip(x, s.components)]
            out[k, sid] = (kind, s, items)
            clips += [(o, t) for a, o, t in items if a == "clip"]
        else:
            out[k, sid] = (kind, s, x)
    return out, clips


def case(ctx, i):
    rng = ctx.rng
    path = vfs.new("timeline-%d.aaf" % i)
    f = aaf2.open(path, "w")
    op = definitions(f)
    part = i % 4
    if part < 2:
        seqs = sequences(ctx, f, op)
        f.close()
        for mode in ("r", "r+"):
            f = aaf2.open(path, mode)
            for mid, sid, s in seqs:
                mob = f.content.mobs.get(mid)
                slot = mob.slot_at(sid)
                s.f, s.op = f, f.dictionary.lookup_operationdef("Dissolve")
                for it, c in zip(s.items, slot.segment.components):
                    it[2] = c
                s.judge(slot, "reopened (%s)" % mode)
                if mode == "r+":
                    for _ in range(10):
                        s.edit(slot.segment)
                    s.judge(slot, "edited after reopening")
            f.close()
    elif part == 2:
        ids = slotids(ctx, f)
        source_clips(ctx, f)
        f.close()
        f = aaf2.open(path, "r")
        for m in f.content.mobs:
            ctx.eq([s.slot_id for s in m.slots], ids[bytes(m.mob_id.bytes_le)], "slot-ids", "reopened")
        f.close()
    else:
        keys, spec, walks, clips = graph(ctx, f, op)
        judge_deps(ctx, f, keys, spec, "in session")
        judge_walks(ctx, f, walks, clips, "in session", keys)
        gone = None
        if rng.random() < 0.4 and len(keys) > 2:
            gone = rng.choice(keys)
            f.content.mobs.pop(MobID(bytes_le=gone))
            keys.remove(gone)
            spec = {k: set(x for x in v if x != gone) for k, v in spec.items() if k != gone}
            walks = {k: v for k, v in walks.items() if k[0] != gone}
            walks, clips = collect(f, walks, keys)
            judge_deps(ctx, f, keys, spec, "after removing a mob")
            judge_walks(ctx, f, walks, clips, "after removing a mob", keys)
        f.close()
        f = aaf2.open(path, rng.choice(["r", "r+"]))
        judge_deps(ctx, f, keys, spec, "reopened")
        walks, clips = collect(f, walks, keys)
        judge_walks(ctx, f, walks, clips, "reopened", keys)
        if rng.random() < 0.5:
            source = aaf2.open(vfs.new("t2-%d.aaf" % i), "w")
            source.close()
        f.close()
    ctx.sample(["%s=%d" % kv for kv in sorted(ctx.counters.items())])
    vfs.clear()
