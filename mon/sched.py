"""Controlled interleavings of two library calls.

Two threads run one call each; only the thread that holds the turn runs.  At
chosen source-line events inside the library the turn is handed over, so a
schedule is a reproducible list of pre-emption points.
"""
import os
import sys
import threading
from . import harness


def library_dir():
    import cqcpy
    return os.path.dirname(os.path.abspath(cqcpy.__file__)) + os.sep


class Lines(object):
    """Count the line events of the library in one call."""

    def __init__(self):
        self.root = library_dir()
        self.n = 0

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            self.hit()
        return self.local

    def hit(self):
        pass

    def run(self, call):
        old = sys.gettrace()
        sys.settrace(self.trace)
        try:
            return call()
        finally:
            sys.settrace(old)


def count(call):
    t = Lines()
    out = t.run(call)
    return out, t.n


class Worker(Lines):
    def __init__(self, pair, me, call, stops):
        Lines.__init__(self)
        self.pair, self.me, self.call = pair, me, call
        self.stops = set(stops)
        self.go = threading.Semaphore(0)
        self.done = False
        self.result, self.error = None, None

    def hit(self):
        if self.n in self.stops:
            self.pair.switch(self.me)

    def body(self):
        self.go.acquire(timeout=10)
        try:
            self.result = self.run(self.call)
        except BaseException as e:
            self.error = e
        self.done = True
        self.pair.finish(self.me)


class Pair(object):
    """Run two calls with the given pre-emption points (line counts)."""

    def __init__(self, calls, stops):
        self.w = [Worker(self, k, calls[k], stops[k]) for k in (0, 1)]
        self.switches = 0
        self.stalled = 0
        self.path = []

    def switch(self, me):
        other = self.w[1 - me]
        if other.done:
            return
        self.switches += 1
        self.path.append((me, self.w[me].n))
        other.go.release()
        # a library that uses locks may make the other thread wait for us
        if not self.w[me].go.acquire(timeout=3):
            self.stalled += 1

    def finish(self, me):
        self.w[1 - me].go.release()

    def run(self):
        ts = [threading.Thread(target=w.body, daemon=True) for w in self.w]
        for t in ts:
            t.start()
        self.w[0].go.release()
        for t in ts:
            t.join(120)
        if any(t.is_alive() for t in ts):
            raise RuntimeError("threads did not finish")
        return [(w.result, w.error) for w in self.w]


def stops(rng, n, how):
    """Pre-emption points among n line events."""
    if n <= 0:
        return []
    if how == 'dense':
        return [int(k) for k in range(1, n + 1) if rng.random() < 0.5]
    k = int(rng.integers(1, 4)) if how == 'sparse' else 1
    return sorted({int(x) for x in rng.integers(1, n + 1, k)})
