"""Deterministic interleaving of threads at every line of the library.

Exactly one thread runs at any time.  A trace function sees each line the library
executes and, as a seeded generator decides, hands the processor to another thread
there, so that the same seed gives the same interleaving.
"""
import hashlib
import os
import random
import sys
import threading

from .harness import REPO

LIB = os.path.join(os.path.abspath(REPO), "src", "aaf2") + os.sep


class Stop(BaseException):
    pass


class Sched(object):
    def __init__(self, seed, rate, budget):
        self.budget = budget    # lines after which the threads run on one after another
        self.rng = random.Random(seed)
        self.rate = rate
        self.wake = {}
        self.live = []
        self.current = None
        self.abort = False
        self.switches = 0
        self.lines = 0
        self.inlib = 0          # switches that left another thread inside the library
        self.inside = {}
        self.pairs = set()      # (line left, line resumed)
        self.where = {}
        self.hash = hashlib.blake2b(digest_size=8)
        self.errors = {}
        self.gap = self._gap()

    def _gap(self):
        return 1 + int(self.rng.expovariate(1.0 / self.rate))

    def pick(self, me):
        others = [t for t in self.live if t != me]
        return self.rng.choice(others) if others else None

    def hand(self, to):
        self.current = to
        self.wake[to].release()

    def wait(self, me):
        self.wake[me].acquire()
        if self.abort:
            raise Stop()

    def _line(self, me, frame):
        self.lines += 1
        if self.abort:
            raise Stop()
        self.gap -= 1
        if self.gap > 0:
            return
        self.gap = self._gap()
        to = self.pick(me)
        if to is None:
            return
        at = (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
        self.where[me] = at
        self.switches += 1
        if self.where.get(to):
            self.inlib += 1
            self.pairs.add((at, self.where[to]))
        self.hash.update(repr((me, at, to)).encode())
        self.hand(to)
        self.wait(me)

    def tracer(self, me):
        def local(frame, event, arg):
            if event == "line":
                if self.lines >= self.budget:
                    sys.settrace(None)
                    return None
                self._line(me, frame)
            return local

        def glob(frame, event, arg):
            if self.lines >= self.budget:
                sys.settrace(None)
                return None
            return local if frame.f_code.co_filename.startswith(LIB) else None
        return glob

    def run(self, bodies):
        """run all bodies to their end; returns {index: exception}"""
        ts = []
        for k, body in enumerate(bodies):
            self.wake[k] = threading.Lock()
            self.wake[k].acquire()
            self.live.append(k)
            ts.append(threading.Thread(target=self._thread, args=(k, body), daemon=True))
        for t in ts:
            t.start()
        self.hand(self.rng.choice(self.live))
        try:
            for t in ts:
                while t.is_alive():
                    t.join(0.2)
        except BaseException:
            self.abort = True
            for k in self.wake:
                try:
                    self.wake[k].release()
                except RuntimeError:
                    pass
            for t in ts:
                t.join(5)
            raise
        return self.errors

    def _thread(self, k, body):
        try:
            try:
                self.wait(k)
                sys.settrace(self.tracer(k))
                body()
            finally:
                sys.settrace(None)
        except Stop:
            pass
        except BaseException as e:
            self.errors[k] = e
        finally:
            self.where.pop(k, None)
            self.live.remove(k)
            if self.live and not self.abort:
                self.hand(self.rng.choice(self.live))
