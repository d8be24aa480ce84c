"""Typed values: by value, in the specified encoding, or refused."""
from vlib.aafworld import AWorld, DATA
from vlib import aafvals, custom, vfs
from vlib.harness import short

ID = "C10"
PLAN = {
    "quick": 240, "thorough": 5000,
    "rule": "every case registers 25-60 random types (integers, enumerations, extensible enumerations, records nested up to "
            "several levels, fixed and variable arrays, sets, renamed and string types) as properties of mobs, sequences and "
            "clips besides those of the built-in model, then assigns random and boundary values, values the type cannot hold, "
            "and changes assigned and returned containers afterwards; each value is compared on read back, its bytes in memory "
            "and in the closed image with an independent encoder; distinct by (type shape)",
    "require": {"values": 12000, "refused_value": 3000, "aliases": 2500, "images_judged": 240, "bytes_compared": 8000},
    "assumptions": ["property data below 60000 bytes", "dates and times in whole seconds",
                    "any truth value may be given to a boolean, and fixed arrays may be given short (rest zero)"],
}


def shape(td, depth=0):
    n = type(td).__name__[7:]
    if depth > 3:
        return n
    if n in ("Int",):
        return (n, td.size, td.signed)
    if n in ("FixedArray", "VarArray", "Set"):
        return (n, shape(td.element_typedef, depth + 1))
    if n == "Enum":
        return (n, shape(td.element_typedef, depth + 1))
    if n == "Rename":
        return (n, shape(td.renamed_typedef, depth + 1))
    if n == "Record":
        return (n, tuple(shape(t, depth + 1) for t in td.member_types))
    return n


class World(AWorld):
    def targets(self):
        if getattr(self, "_t", None) is None:
            self._t = {}
        return self._t

    def pick_data(self):
        rng = self.rng
        for _ in range(30):
            n = self.pick_node()
            ps = [pd for pd in self.model.props(n.cls).values() if pd.form == DATA and pd.gen and not pd.unique and
                  not self.frozen(n, pd)]
            cus = [pd for pd in ps if pd.name.startswith("Cust")]
            if cus and rng.random() < 0.8:
                ps = cus
            if ps:
                return n, rng.choice(sorted(ps, key=lambda p: p.name))
        return None, None

    def check_value(self, n, pd, o, what):
        p = o[pd.name]
        want = n.props[pd.name]
        got = p.value
        self.ctx.note("oracle_checks")
        self.ctx.check(aafvals.same(got, want.v), "value", lambda: "%s: %s.%s (%s) reads %s, expected %s" % (
            what, n.cls, pd.name, shape(pd.td), short(got), short(want.v)))
        if want.enc is not None:
            self.ctx.note("bytes_compared")
            self.ctx.check(aafvals.enceq(bytes(p.data), want.enc), "encoding", lambda:
                           "%s: %s.%s (%s) = %s is kept as %s, expected %s" % (what, n.cls, pd.name, shape(pd.td),
                                                                               short(want.v), short(p.data), short(want.enc)))
        return got

    def op_value(self):
        n, pd = self.pick_data()
        if n is None:
            return False
        from vlib.aafworld import Val
        v, e, b = aafvals.gen(self.rng, pd.td)
        if b is not None and aafvals.enclen(b) > 60000:
            return False
        self.ctx.distinct(shape(pd.td))
        o = self.obj(n)
        self.ctx.log("value", n.cls, pd.name, shape(pd.td))
        o[pd.name].value = v
        n.props[pd.name] = Val("data", e, b)
        self.ctx.note("values")
        got = self.check_value(n, pd, o, "after assignment")
        if self.rng.random() < 0.5:
            if custom.scramble(self.rng, v):
                self.ctx.note("aliases")
                self.check_value(n, pd, o, "after the assigned object changed")
            if custom.scramble(self.rng, got):
                self.ctx.note("aliases")
                self.check_value(n, pd, o, "after the returned object changed")

    def op_badvalue(self):
        n, pd = self.pick_data()
        if n is None:
            return False
        try:
            v = custom.bad(self.rng, pd.td)
        except KeyError:
            return False
        o = self.obj(n)

        def do():
            o[pd.name].value = v
        self.refuse("value: %s %s.%s = %s" % (shape(pd.td), n.cls, pd.name, short(v)), n, do, Exception)


def case(ctx, i):
    rng = ctx.rng
    cus = custom.Custom(rng).grow(rng.choice([25, 40, 60]))
    names = {}

    def setup(f):
        cus.apply(f)
        k = 0
        for name, a, _, _ in cus.made:
            cls = rng.choice(["Mob", "Sequence", "SourceClip", "CompositionMob", "MobSlot", "Component"])
            c = f.metadict.lookup_classdef(cls)
            k += 1
            c.register_propertydef("Cust%d" % k, aafvals.rauid(rng), rng.choice([None, None, 0x9000 + k]), name, True)
        if i % 4 == 0:
            # every type of the built-in model
            for td in sorted(f.metadict.typedefs_by_auid.values(), key=lambda t: str(t.auid)):
                if aafvals.supported(td):
                    k += 1
                    f.metadict.lookup_classdef("Mob").register_propertydef("Cust%d" % k, aafvals.rauid(rng), None,
                                                                           td.type_name, True)
    w = World(ctx, dict(value=260, badvalue=60, addmob=14, rmmob=1, setdata=10, drop=6, copy=4, reuse=2, rekey=0, stream=0,
                        vec=2, set=1, delprop=8, refuse=0, save=2, reopen=1.5), maxdepth=2, optional=0.15, setup=setup,
              extensions=True)
    for _ in range(4):
        w.op_addmob()
    w.run(rng.choice([80, 160, 300]))
    w.finish()
    vfs.clear()
    ctx.sample([repr(e) for e in ctx.events[:12]] + ["%d steps" % w.nops])
