"""Files open at the same time in one process, used in turns and by several threads."""
import importlib
import random
import traceback

import aaf2
from aaf2.auid import AUID
from aaf2.rational import AAFRational
from vlib import aafvals, interleave, vfs
from vlib.harness import Ctx, HarnessError, Violation

ID = "C27"
CASE_CPU = 240
PLAN = {
    "quick": 32, "thorough": 1200,
    "rule": "two to four workloads of the other checks, each on files and with a reference model of its own, run in "
            "threads that hand over at random lines of the library (seeded, replayable), half of them rarely, half of "
            "them every few lines; each keeps its own verdict; then several files register the same names and ids for different "
            "types, classes, properties, members and definitions in turns, and use them; afterwards new files are described as new files were "
            "described before anything happened in the process; distinct by the sequence of hand overs",
    "require": {"switches": 80000, "switches_inside": 60000, "workloads": 60, "sub_checks": 30000,
                "models_compared": 100, "registered": 900, "tenants_judged": 700},
    "assumptions": ["no file, object or stream is shared by threads"],
}
WORK = ["C02", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C19", "C20", "C21", "C22", "C23", "C24", "C26"]
BASE = {}


def describe(f):
    """all a file says about its classes, types and definitions"""
    out = []
    md = f.metadict
    for name in sorted(md.classdefs_by_name):
        c = md.lookup_classdef(name)
        out.append((name, str(c.auid), c.concrete, c.parent.class_name if c.parent else None, sorted(
            (p.property_name, p.pid, str(p.auid), p.optional, bool(p.unique), p.typedef.type_name) for p in c.propertydefs)))
    for name in sorted(md.typedefs_by_name):
        t = md.lookup_typedef(name)
        el = getattr(t, "elements", None)
        out.append((name, str(t.auid), type(t).__name__, sorted((repr(k), repr(v)) for k, v in el.items()) if hasattr(
            el, "items") else repr(el)))
    for p in sorted(p.name for p in f.dictionary.properties()):
        v = f.dictionary.get(p)
        if hasattr(v, "items"):
            out.append((p, sorted((str(k), d.name, d.description) for k, d in v.items())))
    out.append([k for k in sorted(f.header.keys())])
    out.append(len(list(f.content.mobs)))
    return out


def fresh(ext):
    path = vfs.new("fresh.aaf")
    f = aaf2.open(path, "w", extensions=ext)
    d = describe(f)
    f.close()
    f = aaf2.open(path, "r")
    e = describe(f)
    f.close()
    vfs.clear()
    return d, e


class Tenant(object):
    """one file and what was registered in it, with names and ids all files have in common"""

    def __init__(self, ctx, k, pool):
        self.ctx, self.rng, self.pool, self.k = ctx, ctx.rng, pool, k
        self.path = vfs.new("tenant%d.aaf" % k)
        self.f = aaf2.open(self.path, "w", extensions=ctx.rng.random() < 0.5)
        self.names = {"element": {}, "class": {}, "type": {}, "property": {}, "datadef": {}, "opdef": {}}   # id -> name
        self.info = {}          # (kind, id) -> more
        self.fillers = []       # (stored values by property id, data definition id)
        self.mob = self.f.create.CompositionMob("t%d" % k)
        self.f.content.mobs.append(self.mob)
        self.seq = self.f.create.Sequence("picture")
        self.mob.create_timeline_slot(25).segment = self.seq
        self.usage = None

    def new(self, kind):
        used = self.names[kind]
        ids = [a for a in self.pool["ids"][kind] if a not in used]
        ns = [n for n in self.pool["names"] if n not in used.values()]
        if not ids or not ns:
            return None, None
        a, n = self.rng.choice(ids), self.rng.choice(ns)
        used[a] = n
        self.ctx.note("registered")
        self.ctx.log("register", self.k, kind, n, a)
        return a, n

    def step(self):
        rng, f = self.rng, self.f
        kind = rng.choice(["element", "class", "type", "property", "datadef", "opdef", "object", "object", "usage"])
        if kind == "object":
            return self.object()
        if kind == "usage":
            if self.names["element"]:
                a = rng.choice(sorted(self.names["element"]))
                self.mob.usage = rng.choice([self.names["element"][a], AUID(a)])
                self.usage = self.names["element"][a]
            return
        a, n = self.new(kind)
        if a is None:
            return
        md = f.metadict
        if kind == "element":
            md.lookup_typedef("UsageType").register_element(n, AUID(a))
        elif kind == "class":
            parent, concrete = rng.choice(["Filler", "Event", "MasterMob"]), rng.random() < 0.8
            self.info[kind, a] = parent, concrete
            md.register_classdef(n, a, parent, concrete, {})
        elif kind == "type":
            v = {rng.randint(0, 200): "%s %d" % (n, j) for j in range(rng.choice([1, 3]))}
            self.info[kind, a] = v
            md.register_typedef_model({"enums": {n: (a, "01010100-0000-0000-060e-2b3401040101", v)}})
        elif kind == "property":
            t = rng.choice(["aafInt32", "aafString", "Rational"])
            self.info[kind, a] = t
            md.lookup_classdef("Filler").register_propertydef(n, a, None, t, True)
        elif kind == "datadef":
            f.dictionary.register_def(f.create.DataDef(a, n, "of %d" % self.k))
        else:
            d = f.create.OperationDef(a, n, "of %d" % self.k)
            d.media_kind = "picture"
            d["IsTimeWarp"].value = False
            d["Bypass"].value = 0
            d["NumberInputs"].value = 1
            d["OperationCategory"].value = "OperationCategory_Effect"
            f.dictionary.register_def(d)

    def object(self):
        rng = self.rng
        o = self.f.create.Filler("picture", 5)
        vals = {}
        for a, n in sorted(self.names["property"].items()):
            if rng.random() < 0.6:
                vals[a] = {"aafInt32": rng.randint(-5, 5), "aafString": "s%d" % self.k, "Rational": AAFRational(self.k, 7)}[
                    self.info["property", a]]
                o[n].value = vals[a]
        d = None
        if self.names["datadef"] and rng.random() < 0.6:
            d = rng.choice(sorted(self.names["datadef"]))
            o.media_kind = self.names["datadef"][d]
        self.seq.components.append(o)
        self.fillers.append((vals, d))

    def judge(self):
        f, md, ck = self.f, self.f.metadict, self.ctx.check
        usage = md.lookup_typedef("UsageType").elements
        look = {"class": md.lookup_classdef, "type": md.lookup_typedef,
                "datadef": lambda x: self.find(f.dictionary.lookup_datadef, x),
                "opdef": lambda x: self.find(f.dictionary.lookup_operationdef, x)}
        name = {"class": lambda c: c.class_name, "type": lambda t: t.type_name, "datadef": lambda d: d.name,
                "opdef": lambda d: d.name}
        for kind, names in sorted(self.names.items()):
            for a in self.pool["ids"][kind]:
                want = names.get(a)
                if kind == "element":
                    got = usage.get(AUID(a))
                elif kind == "property":
                    p = md.lookup_classdef("Filler").lookup_propertydef(AUID(a))
                    got = p.property_name if p else None
                    if p:
                        ck(p.typedef.type_name == self.info[kind, a], "tenant", "type of a property")
                else:
                    x = look[kind](AUID(a))
                    got = name[kind](x) if x is not None else None
                self.ctx.note("lookups")
                ck(got == want, "tenant", lambda: "%s %s is %r in file %d, registered was %r" % (kind, a, got, self.k, want))
            if kind in look:
                for n in self.pool["names"]:
                    want = [a for a, m in names.items() if m == n]
                    x = look[kind](n)
                    got = [str(x.auid)] if x is not None else []
                    ck(got == want, "tenant", lambda: "%s named %r is %s in file %d, registered was %s" % (
                        kind, n, got, self.k, want))
        for (kind, a), v in self.info.items():
            if kind == "type":
                ck(md.lookup_typedef(AUID(a)).elements == v, "tenant", "members of a type")
            elif kind == "class":
                c = md.lookup_classdef(AUID(a))
                ck((c.parent.class_name, bool(c.concrete)) == v, "tenant", lambda: "class %s in file %d" % (c, self.k))
        ck(self.mob.usage == self.usage, "tenant", lambda: "usage is %s in file %d, set was %s" % (
            self.mob.usage, self.k, self.usage))
        os = list(self.seq.components)
        ck(len(os) == len(self.fillers), "tenant", "number of objects")
        for o, (vals, d) in zip(os, self.fillers):
            got = {str(p.propertydef.auid): p.value for p in o.properties() if str(p.propertydef.auid) in
                   self.pool["ids"]["property"]}
            ck(got == vals, "tenant", lambda: "values %s in file %d, set were %s" % (got, self.k, vals))
            got = str(o.datadef.auid)
            ck(o.datadef.name == "DataDef_Picture" if d is None else got == d, "tenant", "data definition of an object")
            ck(o.root is f and o.datadef.root is f, "tenant", "an object of another file")
        for n in self.pool["names"]:
            a = [a for a, m in self.names["class"].items() if m == n]
            if a and self.info["class", a[0]][1] and f.mode != "rb":
                o = f.create.from_name(n)
                ck(str(o.classdef.auid) == a[0], "tenant", "an object of another class")
        self.ctx.note("tenants_judged")

    def find(self, fn, x):
        try:
            return fn(x)
        except Exception as e:
            if "No Definition" not in str(e):
                raise
            return None

    def reopen(self, mode):
        self.f = aaf2.open(self.path, mode)
        self.mob = [m for m in self.f.content.mobs][0]
        self.seq = self.mob.slots[0].segment


def tenants(ctx):
    """several files with registrations of the same names and ids for different things"""
    rng = ctx.rng
    pool = {"names": ["Tenant %s" % c for c in "abcde"[:rng.choice([2, 3, 5])]],
            "ids": {k: sorted(str(aafvals.rauid(rng)) for _ in range(rng.choice([1, 2, 4])))
                    for k in ("element", "class", "type", "property", "datadef", "opdef")}}
    ts = [Tenant(ctx, k, pool) for k in range(rng.choice([2, 2, 3]))]
    for _ in range(rng.choice([1, 1, 2])):
        for _ in range(rng.choice([10, 25, 50])):
            t = rng.choice(ts)
            t.step()
            if rng.random() < 0.2:
                rng.choice(ts).judge()
        rng.shuffle(ts)
        for t in ts:
            t.judge()
        for t in ts:
            t.f.close()
        for t in ts:
            t.reopen(rng.choice(["r+", "r+", "r"]))
        rng.shuffle(ts)
        for t in ts:
            t.judge()
        for t in ts:
            if t.f.mode == "rb":
                t.f.close()
                t.reopen("r+")
    for t in ts:
        t.f.close()


def case(ctx, i):
    rng = ctx.rng
    if not BASE:
        for ext in (False, True):
            BASE[ext] = fresh(ext)
    n = rng.choice([2, 2, 3, 4])
    rate = rng.choice([15, 60, 400, 3000])
    sub = []
    for k in range(n):
        name = rng.choice(WORK)
        mod = importlib.import_module("props." + name.lower())
        c = Ctx(name, "quick", "%s/C27/%d" % (ctx.seed, i), k + 10 * rng.randint(1, 5000), ctx.workdir, mod)
        sub.append((name, mod, c))
    ctx.log("workloads", [(name, c.index) for name, _, c in sub], rate)
    # something left open meanwhile, which nobody touches
    path = vfs.new("bystander.aaf")
    byext = rng.random() < 0.5
    by = aaf2.open(path, "w", extensions=byext)
    before = describe(by)
    s = interleave.Sched("%s/%d" % (ctx.seed, i), rate, 3000000 if ctx.thorough else 500000)
    errors = s.run([(lambda mod=mod, c=c: mod.case(c, c.index)) for _, mod, c in sub])
    for name, _, c in sub:
        ctx.note("workloads")
        ctx.note("with_" + name)
        ctx.note("sub_checks", c.counters.get("oracle_checks", 0))
        ctx.note("oracle_checks", c.counters.get("oracle_checks", 0))
    ctx.note("switches", s.switches)
    ctx.note("switches_inside", s.inlib)
    ctx.note("library_lines", s.lines)
    ctx.note("line_pairs", len(s.pairs))
    ctx.distinct(s.hash.hexdigest())
    for k, e in sorted(errors.items()):
        if isinstance(e, HarnessError):
            raise e
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__, limit=-4))
        name, _, c = sub[k]
        ctx.events.extend(c.events[-40:])
        raise Violation("interleaved-%s" % name, "%s: %s while other files were in use (workloads %s)\n%s" % (
            type(e).__name__, e, [x[0] for x in sub], tb))
    ctx.check(describe(by) == before, "bystander", "a file nobody touched describes itself differently")
    by.close()
    by = aaf2.open(path, "r")
    ctx.check(describe(by) == BASE[byext][1], "bystander", "a file nobody touched was stored differently")
    by.close()
    for _ in range(3):
        tenants(ctx)
    for ext in (False, True):
        now = fresh(ext)
        ctx.note("models_compared", 2)
        for what, a, b in zip(("made", "reopened"), now, BASE[ext]):
            ctx.check(a == b, "fresh", lambda: "a new file, %s, is not as new files were before: %s" % (
                what, [(x, y) for x, y in zip(a, b) if x != y][:1]))
    vfs.clear()
    ctx.sample(["%s case %d" % (name, c.index) for name, _, c in sub] + ["%d lines, %d switches" % (s.lines, s.switches)])
