"""Failing saves: injected device faults, missing required properties, repeated saves."""
from aaf2.exceptions import AAFPropertyError

from vlib.aafworld import AWorld, DATA, WEAK
from vlib import vfs
from vlib.harness import Violation
from vlib.vfile import InjectedFault

ID = "C17"
PLAN = {
    "quick": 420, "thorough": 9000,
    "rule": "random object graphs in files on an instrumented device; (a) one save, close or with-exit runs with a fault "
            "injected at a random write, seek, read, flush or truncate (once or permanently, with and without the "
            "standard library's buffering between): the fault must reach the caller, and a later close that reports success "
            "must have left a sound file with everything in it; (b) required properties are removed from attached "
            "objects: save and close must name them and write nothing incomplete until they are supplied; (c) repeated "
            "saves must leave every stored stream as it was; distinct by (what was called, operation that failed, where, "
            "once or permanent, buffered)",
    "require": {"faults_fired": 250, "faults_reported": 250, "retries_succeeded": 60, "missing_refused": 200,
                "missing_supplied": 100, "streams_unchanged": 5000, "images_judged": 250},
    "assumptions": ["a fault is an OSError raised by the file object before it had any effect"],
}

WRITE = ("write",)
KINDS = [(WRITE, 8), (("seek",), 2), (("read",), 2), (("truncate",), 2), (("flush",), 1),
         (("write", "seek", "read", "truncate", "flush"), 3)]


def chain(e):
    seen = []
    while e is not None and e not in seen:
        seen.append(e)
        e = e.__cause__ or e.__context__
    return seen


def streams(f):
    """every stored stream, the scratch area of released objects left out"""
    out = {}
    for root, storages, items in f.cfb.walk("/"):
        p = root.path()
        if p == "/tmp" or p.startswith("/tmp/"):
            continue
        for s in items:
            out[(p, s.name)] = bytes(f.cfb.open(s, "r").read())
    return out


def build(ctx, buffered):
    rng = ctx.rng
    w = AWorld(ctx, dict(reopen=0, save=1, drop=2), maxdepth=rng.choice([2, 3]), optional=0.2)
    w.run(rng.choice([5, 20, 40]))
    if rng.random() < 0.75 or buffered:
        w.close()
        w.forget()
        if buffered:
            vfs.BUFFERED.add(w.path)
        w.open("r+")
    w.run(rng.choice([1, 5, 15, 40]))
    return w


def success(ctx, w):
    """the library says that everything is stored: is it?"""
    ctx.check(w.tf.closed or w.path in vfs.BUFFERED, "reported-success", "the file is still open after close()")
    w.tf.fail_at = None
    w.tf.closed = False
    w.judge()
    vfs.BUFFERED.discard(w.path)
    w.forget()
    w.open("r")
    w.verify_all("after a close that reported success")
    w.f.close()


def faults(ctx):
    rng = ctx.rng
    buffered = rng.random() < 0.3
    w = build(ctx, buffered)
    tf = w.tf
    kinds = rng.choices([k for k, _ in KINDS], [x for _, x in KINDS])[0]
    sticky = rng.random() < 0.4
    call = rng.choice(["save", "close", "close", "exit"])
    # how many of those operations such a call makes: learnt from a call that saves everything first
    if rng.random() < 0.3:
        w.f.save()
    at = int(2 ** rng.uniform(0, rng.choice([2, 6, 10]))) - 1
    ctx.log("fault", call, kinds, at, sticky, buffered)
    tf.fail_kinds, tf.fail_sticky, tf.fail_at, tf.failed = kinds, sticky, at, 0
    base = tf.ops
    fn = {"save": w.f.save, "close": w.f.close, "exit": lambda: w.f.__exit__(None, None, None)}[call]
    err = None
    try:
        fn()
    except Exception as e:      # noqa
        err = e
    fired = tf.failed
    if fired:
        ctx.note("faults_fired")
        ctx.distinct((call, kinds, "1st" if at == 0 else "early" if at < 16 else "late", sticky, buffered))
        if err is None and call == "save" and buffered:
            pass                    # the standard library can hold back the error until the next flush
        else:
            ctx.check(err is not None, "fault-swallowed",
                      lambda: "%s() reported success although the device refused %r number %d of %d operations (%s)" % (
                          call, kinds, at, tf.ops - base, "every time" if sticky else "once"))
        if err is not None:
            ctx.check(any(isinstance(x, (InjectedFault,)) for x in chain(err)), "fault-hidden",
                      lambda: "%s() raised %r, which does not lead to the error of the device" % (call, err))
            ctx.note("faults_reported")
    elif err is not None:
        raise Violation("save-raises", "%s() raised %r without a fault" % (call, err))
    if not fired:
        ctx.note("no_fault_reached")
        tf.fail_at = None
        if call == "save":
            w.f.close()
        success(ctx, w)
        return
    if sticky and rng.random() < 0.6:
        # permanently broken: every further attempt reports it as well
        for k in range(2):
            e2 = None
            try:
                w.f.close()
            except Exception as e:      # noqa
                e2 = e
            if e2 is None:
                raise Violation("fault-swallowed", "close() number %d reported success on a device that still refuses %r"
                                % (k + 2, kinds))
        ctx.note("permanent_refused")
        return
    # the device works again
    tf.fail_at = None
    for k in range(3):
        try:
            w.f.close()
        except Exception as e:      # noqa
            ctx.note("retries_refused")
            ctx.log("retry", repr(e)[:80])
            if isinstance(e, (IOError, ValueError)) and not w.f.is_open:
                return
            continue
        ctx.note("retries_succeeded")
        success(ctx, w)
        return


def missing(ctx):
    rng = ctx.rng
    w = build(ctx, False)
    if rng.random() < 0.5:
        w.f.save()
    broken = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        for _ in range(20):
            n = w.pick_node(lambda n: w.attached(n) and bool(n.props))
            if n is None:
                return
            pds = w.model.props(n.cls)
            names = [k for k in sorted(n.props) if k in pds and not pds[k].optional and not pds[k].unique and
                     pds[k].form in (DATA, WEAK) and not w.frozen(n, pds[k]) and w.can_set(n, pds[k])
                     and k not in ("ObjClass",)]
            if names and not any(n is b[0] for b in broken) and not any(
                    p is b[0] for b in broken for p in up(n)) and not any(n is p for b in broken for p in up(b[0])):
                break
        else:
            continue
        name = rng.choice(names)
        if pds[name].form == WEAK and n.props[name].v is None:
            continue
        o = w.obj(n, keep=True)
        n.obj = o
        before = None
        e = o.dir.get("properties")
        if e is not None:
            before = bytes(w.f.cfb.open(e, "r").read())
        val = o[name].value
        ctx.log("remove required", n.cls, name)
        del o[name]
        broken.append([n, name, val, before])
    if not broken:
        return
    while broken:
        for call in (w.f.save, w.f.close) if rng.random() < 0.7 else (w.f.save,):
            ctx.log("save with %d incomplete" % len(broken))
            try:
                call()
            except AAFPropertyError as e:
                ctx.note("missing_refused")
                ctx.check(any(b[1] in str(e) for b in broken), "missing-named",
                          lambda: "%s: none of %r is named" % (e, [b[1] for b in broken]))
            else:
                raise Violation("missing-accepted", "%s() succeeded while %s lack(s) %s" % (
                    call.__name__, [b[0].cls for b in broken], [b[1] for b in broken]))
            ctx.check(w.f.is_open and w.f.cfb.is_open and not w.tf.closed, "closed-incomplete",
                      "the file is closed although objects in it are incomplete")
            for n, name, val, before in broken:
                e = n.obj.dir.get("properties")
                now = bytes(w.f.cfb.open(e, "r").read()) if e is not None else None
                ctx.check(now == before, "incomplete-written", lambda: "properties of %s were written without %s" % (n.cls, name))
                ctx.distinct((n.cls, name, before is None))
        b = broken.pop(rng.randrange(len(broken)))
        ctx.log("supply", b[0].cls, b[1])
        b[0].obj[b[1]].value = b[2]
        ctx.note("missing_supplied")
    if rng.random() < 0.5:
        w.f.save()
        w.verify_all("after supplying what was missing")
    w.run(rng.choice([0, 0, 5]))
    w.finish()


def up(n):
    out = []
    while n.parent is not None:
        n = n.parent
        out.append(n)
    return out


def repeated(ctx):
    rng = ctx.rng
    w = build(ctx, rng.random() < 0.2)
    for _ in range(rng.choice([1, 2, 3])):
        ctx.log("save twice")
        w.f.save()
        a = streams(w.f)
        if rng.random() < 0.5:
            w.verify_all("after saving")        # reading is not a change either
        for _ in range(rng.choice([1, 2, 3])):
            w.f.save()
        b = streams(w.f)
        ctx.note("streams_unchanged", len(a))
        d = [k for k in set(a) | set(b) if a.get(k) != b.get(k)]
        ctx.check(not d, "save-changes", lambda: "saving again changed %s" % sorted(d)[:4])
        ctx.distinct(("twice", len(a) // 20))
        w.run(rng.choice([1, 4, 10]))
    w.f.save()
    a = streams(w.f)
    w.close()
    vfs.BUFFERED.discard(w.path)
    # a session that changes nothing
    w.forget()
    w.open("r+")
    if rng.random() < 0.5:
        w.verify_all("in a session without changes")
    for _ in range(rng.choice([0, 1, 2])):
        w.f.save()
    w.close()
    w.open("r")
    b = streams(w.f)
    w.verify_all("after a session without changes")
    w.f.close()
    meta = [k for k in set(a) | set(b) if a.get(k) != b.get(k) and not k[0].startswith("/MetaDictionary-1")]
    ctx.check(not meta, "save-changes", lambda: "a session without changes changed %s" % sorted(meta)[:4])


def edits(ctx):
    """a device that fails while the file is being edited: the edit must not look successful"""
    rng = ctx.rng
    w = build(ctx, False)
    tf = w.tf
    kinds = rng.choice([WRITE, ("seek",), ("read",), ("write", "seek", "read", "truncate")])
    tf.fail_kinds, tf.fail_sticky, tf.fail_at, tf.failed = kinds, rng.random() < 0.5, int(2 ** rng.uniform(0, 6)) - 1, 0
    for _ in range(60):
        err = None
        try:
            w.step()
        except Violation:
            raise
        except Exception as e:      # noqa
            err = e
        if tf.failed:
            ctx.note("edit_faults_fired")
            ctx.check(err is not None, "fault-swallowed", lambda: "%s reported success although the device refused %r" % (
                ctx.events[-1:], kinds))
            ctx.check(any(isinstance(x, InjectedFault) for x in chain(err)), "fault-hidden",
                      lambda: "%s raised %r, which does not lead to the error of the device" % (ctx.events[-1:], err))
            ctx.distinct(("edit", kinds, str(ctx.events[-1:])[:30]))
            return
        if err is not None:
            raise err


def case(ctx, i):
    r = ctx.rng.random()
    if r < 0.12:
        return edits(ctx)
    if r < 0.6:
        faults(ctx)
    elif r < 0.85:
        missing(ctx)
    else:
        repeated(ctx)
    vfs.clear()
    ctx.sample([repr(e) for e in ctx.events[-8:]])
