"""Monitor harness: case scheduling, event counters, three-valued verdicts.

A property module (props/cNN.py) defines

    ID, TITLE, RULE            strings
    QUICK, THOROUGH            number of cases per tier
    REQUIRE                    {counter: minimum} - fewer => inconclusive
    def case(ctx, i)           run one workload; the monitors report through ctx
    optional  CASE_CPU         CPU seconds after which a case counts as not terminating

ctx offers: rng (seeded from VERIF_SEED/property/case), note(counter, n),
distinct(key), sample(obj), log(event), check(cond, sig, msg), violation(sig, msg).
"""
import hashlib
import json
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    def __init__(self, sig, msg):
        Exception.__init__(self, "%s: %s" % (sig, msg))
        self.sig = sig
        self.msg = msg


class CaseTimeout(BaseException):
    pass


class HarnessError(Exception):
    """The machinery itself is at fault: never a verdict."""


def _short(v, n=160):
    if isinstance(v, (bytes, bytearray, memoryview)):
        v = bytes(v)
        s = "%s%s(%d bytes, sha1 %s)" % (v[:16].hex(), ".." if len(v) > 16 else "",
                                         len(v), hashlib.sha1(v).hexdigest()[:10])
        return s
    s = repr(v)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


short = _short


class Ctx(object):
    def __init__(self, prop, tier, seed, index, workdir, mod):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.index = index
        self.rng = random.Random("%s/%s/%d" % (seed, prop, index))
        self.workdir = workdir
        self.mod = mod
        self.counters = {}
        self.keys = set()
        self.samples = []
        self.events = []
        self.violations = []
        self.known = []
        self._files = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def note(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def notemax(self, name, n):
        k = "max:" + name
        if n > self.counters.get(k, -1):
            self.counters[k] = n

    def distinct(self, key):
        h = hashlib.blake2b(repr(key).encode("utf8", "backslashreplace"), digest_size=8).hexdigest()
        self.keys.add(h)

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def log(self, *event):
        self.events.append(event)

    def check(self, cond, sig, msg=""):
        self.note("oracle_checks")
        if not cond:
            raise Violation(sig, msg() if callable(msg) else msg)

    def eq(self, got, want, sig, what=""):
        self.note("oracle_checks")
        if not (got == want):
            raise Violation(sig, "%s: got %s, expected %s" % (what, _short(got), _short(want)))

    def raises(self, exc, sig, fn, *a, **k):
        """fn must raise one of exc."""
        self.note("oracle_checks")
        try:
            r = fn(*a, **k)
        except exc as e:
            self.note("expected_errors")
            return e
        raise Violation(sig, "no error raised, returned %s" % _short(r))

    def path(self, suffix=".aaf"):
        self._files += 1
        return os.path.join(self.workdir, "f%d%s" % (self._files, suffix))


TBL = int(os.environ.get("VERIF_TB", "-12"))


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, tier, seed, index, verbose=False):
    work = tempfile.mkdtemp(prefix="v%s-" % mod.ID, dir=os.environ.get("VERIF_SCRATCH"))
    ctx = Ctx(mod.ID, tier, seed, index, work, mod)
    cpu = getattr(mod, "CASE_CPU", 120)
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    try:
        try:
            mod.case(ctx, index)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Violation as v:
        ctx.violations.append((v.sig, v.msg, traceback.format_exc(limit=-6)))
    except HarnessError:
        raise
    except CaseTimeout:
        ctx.violations.append(("no-termination",
                               "case did not finish within %d CPU seconds (typical: a fraction of that)" % cpu,
                               traceback.format_exc(limit=TBL)))
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        if isinstance(e, ImportError):
            raise
        ctx.violations.append(("unexpected-%s" % type(e).__name__,
                               "operation that must succeed raised %s: %s" % (type(e).__name__, e),
                               traceback.format_exc(limit=TBL)))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        shutil.rmtree(work, ignore_errors=True)
    return ctx


def load_known(prop):
    """known findings: lines of JSON {property, sig, what} (open) or 'fixed: ...' text lines."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d["property"] == prop:
                    out.append(d)
    return out


def merge_counts(dst, src):
    for k, v in src.items():
        if k.startswith("max:"):
            dst[k] = max(dst.get(k, 0), v)
        else:
            dst[k] = dst.get(k, 0) + v
