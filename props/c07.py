"""Files opened for reading: nothing is ever written, and no attempt to change anything gets through."""
import glob
import hashlib
import os

import aaf2
from aaf2.auid import AUID
from aaf2.mobid import MobID
from aaf2.rational import AAFRational
from aaf2 import cfb as cfbmod

from vlib.aafworld import AWorld, snap, diff, keyb, DATA, STRONG, SVEC, SSET, WEAK, WVEC, WSET, STREAM
from vlib import aafvals, custom, vfs
from vlib.harness import Violation, short

ID = "C07"
SAMPLES = sorted(glob.glob("/repo/tests/test_files/*.aaf") + glob.glob("/repo/tests/test_files/*/*.aaf"))
PLAN = {
    "quick": 180, "thorough": 3000,
    "rule": "files of random object graphs, sample files of other applications, and compound files with random layout opened for "
            "reading (virtual and real files, with statement, with and without extensions); random mix of reads and of "
            "attempts at every mutating operation of properties, collections, streams, attributes, mobs, dictionary and storage "
            "tree; every attempt on stored data must raise; the full snapshot of the graph and of the storage tree before and "
            "after must agree; the file object logs writes, truncations and flushes with data; distinct by attempted operation "
            "and class",
    "require": {"attempts": 6000, "refused": 5500, "snapshots": 500, "files_opened": 180, "reads": 500, "sample_files": 10,
                "closed_unchanged": 180},
    "assumptions": ["definitions registered on a read-only file only extend the reader's model and are not counted as modification"],
}


def tree(c):
    """the storage tree as the library shows it, with stream digests"""
    out = []
    for root, storages, streams in c.walk("/"):
        out.append((root.path(), "dir", root.class_id and str(root.class_id)))
        for s in streams:
            d = s.open("r").read()
            out.append((s.path(), s.byte_size, hashlib.md5(d).hexdigest()))
    return sorted(out, key=repr)


def objects(o, depth=0):
    """every object below o, through the API"""
    yield o
    if depth > 40:
        return
    for p in list(o.properties()):
        if p.format == STRONG:
            v = p.value
            if v is not None:
                for x in objects(v, depth + 1):
                    yield x
        elif p.format in (SVEC, SSET):
            for v in list(p.value):
                for x in objects(v, depth + 1):
                    yield x


class Attempts(object):
    def __init__(self, ctx, f, objs):
        self.ctx, self.rng, self.f, self.objs = ctx, ctx.rng, f, objs
        self.setters = {}

    def any(self, pred=lambda o: True):
        for _ in range(30):
            o = self.rng.choice(self.objs)
            if pred(o):
                return o
        return None

    def members(self, p):
        return list(p.value)

    def value_for(self, o, p):
        td = p.typedef
        if td is not None and aafvals.supported(td):
            return aafvals.gen(self.rng, td)[0]
        return b"xyz"

    def attr_setters(self, o):
        k = type(o)
        if k not in self.setters:
            self.setters[k] = sorted({n for c in k.__mro__ for n, v in vars(c).items()
                                      if isinstance(v, property) and v.fset is not None})
        return self.setters[k]

    def prop(self, formats):
        for _ in range(40):
            o = self.rng.choice(self.objs)
            ps = [p for p in o.properties() if p.format in formats]
            if ps:
                return o, self.rng.choice(ps)
        return None, None

    # each returns (description, callable) or None
    def a_value(self):
        o, p = self.prop((DATA,))
        if p is None:
            return
        v = self.value_for(o, p)
        return (p.name, "value"), lambda: setattr(o[p.name], "value", v)

    def a_same(self):
        o, p = self.prop((DATA,))
        if p is None or p.typedef is None or not aafvals.supported(p.typedef):
            return
        v = p.value
        return (p.name, "same value"), lambda: setattr(o[p.name], "value", v)

    def a_none(self):
        o, p = self.prop((DATA, STRONG, SVEC, SSET, WEAK, WVEC, WSET))
        if p is None:
            return
        return (p.name, "value None"), lambda: setattr(o[p.name], "value", None)

    def a_del(self):
        o, p = self.prop((DATA, STRONG, SVEC, SSET, WEAK, WVEC, WSET, STREAM))
        if p is None:
            return
        return (p.name, "del", p.format), lambda: o.__delitem__(p.name)

    def a_new(self):
        o = self.any()
        names = [n for n in o.allkeys() if n not in o.keys()]
        if not names:
            return
        n = self.rng.choice(names)
        pd = [x for x in o.classdef.all_propertydefs() if x.property_name == n][0]
        fmt = pd.store_format
        if fmt == DATA and pd.typedef is not None and aafvals.supported(pd.typedef):
            v = aafvals.gen(self.rng, pd.typedef)[0]
        elif fmt in (SVEC, SSET, WVEC, WSET):
            v = []
        elif fmt == STREAM:
            m = self.rng.choice(["w", "r", "rw"])
            return (n, "absent stream", m), lambda: o[n].open(m)
        elif fmt in (STRONG, WEAK):
            v = self.any(lambda x: pd.typedef.ref_classdef.isinstance(x.classdef))
            if v is None:
                return
        else:
            return
        return (n, "absent property", fmt), lambda: setattr(o[n], "value", v)

    def a_list(self):
        o, p = self.prop((SVEC, WVEC, SSET, WSET))
        if p is None:
            return
        ms = self.members(p)
        m = self.rng.choice(ms) if ms else self.any(lambda x: p.typedef.ref_classdef.isinstance(x.classdef))
        if m is None:
            return
        rng = self.rng
        spare = None
        if rng.random() < 0.3:
            try:
                spare = m.copy()
            except Exception:
                spare = None
        m = spare if spare is not None else m
        if p.format == SVEC:
            w = rng.choice(["append", "extend", "insert", "pop", "popi", "clear", "set", "value", "values"])
        elif p.format == SSET:
            w = rng.choice(["append", "extend", "popkey", "clear", "value", "values"])
        else:
            w = rng.choice(["append", "extend", "clear", "value", "values"])
        if w in ("pop", "popi", "popkey", "set") and not ms:
            return
        i = rng.randrange(len(ms)) if ms else 0
        fn = {
            "append": lambda: p.append(m), "extend": lambda: p.extend([m]), "insert": lambda: p.insert(i, m),
            "pop": lambda: p.pop(), "popi": lambda: p.pop(i), "clear": lambda: p.clear(),
            "set": lambda: p.__setitem__(i, m), "value": lambda: setattr(p, "value", []),
            "values": lambda: setattr(p, "value", [m]), "popkey": lambda: p.pop(ms[i].unique_key),
        }[w]
        return (p.name, w, p.format), fn

    def a_strong(self):
        o, p = self.prop((STRONG, WEAK))
        if p is None:
            return
        m = self.any(lambda x: p.typedef.ref_classdef.isinstance(x.classdef))
        if m is None:
            return
        if self.rng.random() < 0.5:
            m = p.value
        return (p.name, "reference", p.format), lambda: setattr(o[p.name], "value", m)

    def a_stream(self):
        o, p = self.prop((STREAM,))
        if p is None:
            return
        k = self.rng.choice(["w", "rw", "write", "truncate", "essence"])
        if k in ("w", "rw"):
            def fn():
                s = p.open(k)
                if k == "rw":
                    s.write(b"abc")
        elif k == "write":
            def fn():
                s = p.open("r")
                s.seek(self.rng.choice([0, 3]))
                s.write(b"changed")
        elif k == "truncate":
            def fn():
                s = p.open("r")
                if not s.dir.byte_size:
                    raise ValueError("nothing to truncate")
                s.truncate(self.rng.choice([0, s.dir.byte_size // 2]))
        else:
            if not hasattr(o, "open"):
                return

            def fn():
                o.open("w")
        return (p.name, "stream", k), fn

    def a_attr(self):
        # definitions of classes and types are the reader's model
        o = self.any(lambda o: self.attr_setters(o) and type(o).__module__ not in ("aaf2.metadict", "aaf2.types"))
        if o is None:
            return
        n = self.rng.choice(self.attr_setters(o))
        try:
            cur = getattr(o, n)
        except Exception:
            cur = 5
        vals = [cur, 5, 2.5, "text", MobID(bytes_le=aafvals.rbytes(self.rng, 32)), aafvals.rauid(self.rng), AAFRational(1, 2),
                self.rng.choice(self.objs), "Picture", None, [], True]
        v = self.rng.choice(vals[:1] * 5 + vals)
        return (type(o).__name__, "attribute", n), lambda: setattr(o, n, v)

    def a_mob(self):
        m = self.any(lambda o: hasattr(o, "create_timeline_slot"))
        if m is None:
            return
        rng = self.rng
        ops = {
            "create_timeline_slot": lambda: m.create_timeline_slot(25),
            "create_picture_slot": lambda: m.create_picture_slot(),
            "create_sound_slot": lambda: m.create_sound_slot(),
            "create_empty_sequence_slot": lambda: m.create_empty_sequence_slot(25, media_kind="picture"),
            "comments": lambda: m.comments.__setitem__("key", "value"),
            "comments existing": lambda: m.comments.__setitem__(next(iter(m.comments.items()))[0], "new"),
            "slots append": lambda: m.slots.append(m.slots[0].copy()),
            "slots pop": lambda: m.slots.pop(),
        }
        if hasattr(m, "create_tape_slots"):
            ops["create_tape_slots"] = lambda: m.create_tape_slots("tape", 25, 25)
            ops["create_timecode_slot"] = lambda: m.create_timecode_slot(25, 25)
            ops["create_empty_slot"] = lambda: m.create_empty_slot(25)
            ops["create_essence"] = lambda: m.create_essence(25, "picture")
        n = rng.choice(sorted(ops))
        return ("mob", n), ops[n]

    def a_object(self):
        o = self.any(lambda o: hasattr(o, "add_keyframe") or hasattr(o, "components") or hasattr(o, "parameters")
                     or hasattr(o, "slots"))
        if o is None:
            return
        if hasattr(o, "add_keyframe"):
            return ("VaryingValue", "add_keyframe"), lambda: o.add_keyframe(0, 1)
        for n in ("components", "parameters", "slots"):
            if hasattr(o, n):
                c = getattr(o, n)
                ms = list(c.value) if c is not None and hasattr(c, "value") else []
                if ms:
                    return (type(o).__name__, n), lambda: c.append(ms[0].copy())
        return

    def a_content(self):
        f, rng = self.f, self.rng
        mobs = list(f.content["Mobs"].value)
        d = f.dictionary
        ops = {
            "register_def": lambda: d.register_def(f.create.DataDef(AUID("01030202-0100-0000-060e-2b34040101ff"), "n", "d")),
            "data definitions": lambda: d["DataDefinitions"].clear(),
            "header version": lambda: f.header["Version"].__setattr__("value", {"major": 9, "minor": 9}),
            "identification": lambda: f.header["IdentificationList"].append(f.header["IdentificationList"].value[0].copy()),
            "content": lambda: f.header["Content"].__setattr__("value", None),
            "content new": lambda: f.header["Content"].__setattr__("value", f.header["Content"].value.copy()),
            "link wav": lambda: f.content.link_external_wav({"format": {"filename": "a.wav"}, "streams": []}),
            "setup defaults": lambda: f.dictionary.setup_defaults(),
        }
        if mobs:
            m = rng.choice(mobs)
            ops["mobs append copy"] = lambda: f.content.mobs.append(m.copy())
            ops["mobs append same"] = lambda: f.content.mobs.append(m)
            ops["mobs pop"] = lambda: f.content.mobs.pop(m.mob_id)
            ops["mobs clear"] = lambda: f.content.mobs.clear()
            ops["rekey"] = lambda: m.__setattr__("mob_id", MobID(bytes_le=aafvals.rbytes(rng, 32)))
            ops["rekey value"] = lambda: m["MobID"].__setattr__("value", MobID(bytes_le=aafvals.rbytes(rng, 32)))
            ops["del mobid"] = lambda: m.__delitem__("MobID")
        n = rng.choice(sorted(ops))
        return ("file", n), ops[n]

    def a_cfb(self):
        return cfb_attempt(self.rng, self.f.cfb)

    def harmless(self):
        """may work or not, must not show"""
        f, rng, objs = self.f, self.rng, self.objs

        def create():
            getattr(f.create, rng.choice(["MasterMob", "CompositionMob", "SourceMob", "Filler", "Sequence", "TaggedValue"]))()

        def copy():
            rng.choice(objs).copy()

        def alias():
            o, p = self.prop((DATA, SVEC, SSET, WVEC, WSET))
            if p is not None and (p.format != DATA or p.typedef is not None and aafvals.supported(p.typedef)):
                v = p.value
                if isinstance(v, list) and v and not isinstance(v[0], (int, str, dict)):
                    v.pop()
                else:
                    custom.scramble(rng, v)

        def copied():
            o = rng.choice(objs).copy()
            o.name = "changed"

        def dump():
            f.dump() if len(objs) < 3000 else None

        def read():
            o, p = self.prop((STREAM,))
            if p is not None:
                p.open("r").read(rng.choice([0, 1, 100, -1]))

        def walk():
            for m in f.content.mobs:
                for s in m.slots:
                    try:
                        seg = s.segment
                        list(seg.walk()) if hasattr(seg, "walk") else None
                    except Exception:
                        pass
                list(m.dependant_mobs())
        fn = rng.choice([create, copy, alias, copied, read, walk, f.save, lambda: f.cfb.listdir("/"), alias, dump,
                         lambda: list(f.content.toplevel()), lambda: f.manager.objects.clear()
                         if hasattr(f.manager, "objects") and hasattr(f.manager.objects, "clear") else None])
        try:
            with open(os.devnull, "w") as null:
                import contextlib
                with contextlib.redirect_stdout(null):
                    fn()
        except Exception:
            self.ctx.note("harmless_raised")
        self.ctx.note("reads")


def cfb_attempt(rng, c):
    paths = [e[0] for e in [(s.path(), 0) for r, d, ss in c.walk("/") for s in list(ss) + list(d)]]
    if not paths:
        return
    p, q = rng.choice(paths), rng.choice(paths)
    e = c.find(p)
    ops = {
        "touch": lambda: c.touch(p + "/new" if e.isdir() else "/newstream") if hasattr(c, "touch") else c.open("/newx", "w"),
        "open w": lambda: c.open("/new-stream", "w"),
        "open existing w": lambda: c.open(p if e.isfile() else "/x-y", "w"),
        "open rw": lambda: c.open(p if e.isfile() else "/x-y", "rw").write(b"x"),
        "makedir": lambda: c.makedir("/newdir"),
        "makedirs": lambda: c.makedirs("/newdir/sub/dir"),
        "remove": lambda: c.remove(p),
        "rmtree": lambda: c.rmtree(p if e.isdir() else os.path.dirname(p) or "/none"),
        "move": lambda: c.move(p, "/moved"),
        "move onto": lambda: c.move(p, q + "_x"),
        "entry touch": lambda: e.touch("entry") if e.isdir() else e.open("w"),
        "entry makedir": lambda: e.makedir("entry") if e.isdir() else e.open("w"),
        "entry open": lambda: e.open("w") if e.isfile() else c.find(p).makedir("x"),
        "stream write": lambda: c.open(p, "r").write(b"y"),
    }
    n = rng.choice(sorted(ops))
    return ("storage", n), ops[n]


KINDS = ["value", "same", "none", "del", "new", "list", "list", "strong", "stream", "attr", "attr", "mob", "object", "content",
         "cfb"]


def build(ctx):
    """image of a random file"""
    w = AWorld(ctx, dict(addmob=10, reopen=0, save=1), maxdepth=ctx.rng.choice([2, 3]))
    for _ in range(4):
        w.op_addmob()
    w.op_addess()
    w.run(ctx.rng.choice([20, 60]))
    w.close(judge=False)
    return w.tf.getvalue()


def unchanged(ctx, tf, digest, what):
    ctx.note("closed_unchanged")
    if tf.nwrites or tf.ntrunc:
        raise Violation("written", "%s: %d writes, %d truncations on a file opened for reading" % (what, tf.nwrites, tf.ntrunc))
    if hashlib.md5(tf.getvalue()).hexdigest() != digest:
        raise Violation("written", "%s: content changed" % what)


def session(ctx, f, steps, every, extra=None):
    def shot():
        ctx.note("snapshots")
        return snap(f.header), tree(f.cfb), sorted(f.root.keys())
    before = shot()
    objs = list(objects(f.root))
    ctx.notemax("objects", len(objs))
    at = Attempts(ctx, f, objs)
    recent = []

    def compare():
        now = shot()
        if now != before:
            d = diff(now[0], before[0], "Header") or diff(now[1], before[1], "storage") or ("root", now[2], before[2])
            raise Violation("readonly-changed", "after %s: %s: %s became %s" % (short(recent, 300), d[0], short(d[2]), short(d[1])))
        del recent[:]
    rng = ctx.rng
    for i in range(steps):
        if rng.random() < 0.15:
            at.harmless()
            recent.append("read")
        else:
            a = getattr(at, "a_" + rng.choice(KINDS))()
            if a is None:
                continue
            what, fn = a
            ctx.log(*what)
            recent.append(what)
            ctx.note("attempts")
            ctx.distinct(what)
            try:
                fn()
            except Exception as e:
                ctx.note("refused")
                ctx.note("refused_" + type(e).__name__)
            else:
                raise Violation("accepted", "%s on a file opened for reading raised nothing" % (what,))
        if rng.random() < every:
            compare()
    compare()


def case(ctx, i):
    rng = ctx.rng
    ctx.note("files_opened")
    if i % 8 == 7:
        path = SAMPLES[rng.randrange(len(SAMPLES))]
        data = open(path, "rb").read()
        ctx.note("sample_files")
        steps, every = 150, 0.01
    else:
        data = build(ctx)
        steps, every = rng.choice([30, 60, 100]), 0.08
    digest = hashlib.md5(data).hexdigest()
    real = None
    way = rng.choice(["path", "path", "path", "real"])
    ctx.log("open", way, len(data))
    ext = rng.random() < 0.5
    vp = vfs.put("ro-%d.aaf" % i, data)
    tf = vfs.get(vp)
    tf.nwrites = tf.ntrunc = 0
    if way == "path":
        f = aaf2.open(vp, rng.choice(["r", "rb"]), extensions=ext)
        ctx.check(tf.mode == "rb", "open-mode", lambda: "opened with mode %s" % tf.mode)
    else:
        real = ctx.path()
        open(real, "wb").write(data)
        os.utime(real, (10 ** 9, 10 ** 9))
        f = aaf2.open(real, "r", extensions=ext)
    try:
        if rng.random() < 0.3:
            try:
                with f:
                    session(ctx, f, steps, every)
                    raise KeyError("leaving by an error")
            except KeyError as e:
                if "leaving" not in str(e):
                    raise
        else:
            session(ctx, f, steps, every)
            f.close()
    except Violation:
        raise
    if real:
        ctx.note("closed_unchanged")
        ctx.check(hashlib.md5(open(real, "rb").read()).hexdigest() == digest, "written", "content of the real file changed")
        ctx.check(os.stat(real).st_mtime == 10 ** 9, "written", "the real file was touched")
    else:
        unchanged(ctx, tf, digest, way)
    vfs.clear()
    ctx.sample([repr(e) for e in ctx.events[:15]] + ["%d events" % len(ctx.events)])
