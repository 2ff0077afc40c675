"""Running calls in threads under a given schedule: a thread is traced in the library's files
and hands over when its quantum of executed lines (or opcodes) is used up."""
import os
import sys
import threading
import time

ROOT = os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + "/eth_abi/"


class Sched:
    def __init__(self, schedule, quotas, ops=False, phase=0):
        self.s, self.quotas, self.ops = list(schedule), quotas, ops
        self.pos = 0
        n = len(quotas)
        self.go = [threading.Event() for _ in range(n)]
        self.left = [self.s.count(t) for t in range(n)]
        self.done = [False] * n
        self.count = [phase % max(1, q) for q in quotas]  # where the first quantum ends
        self.free = False
        self.ticks = 0
        self.lock = threading.Lock()
        self.switches = 0

    def tracer(self, t):
        quota, ops = self.quotas[t], self.ops

        def local(frame, event, arg):
            if event == ("opcode" if ops else "line"):
                self.ticks += 1
                self.count[t] += 1
                if self.count[t] >= quota and self.left[t] > 1 and not self.free:
                    self.count[t] = 0
                    self.hand(t)
                    if self.alone(t):
                        sys.settrace(None)  # nobody left to hand over to
            return local

        def glob(frame, event, arg):
            if event == "call" and os.path.realpath(frame.f_code.co_filename).startswith(ROOT):
                if ops:
                    frame.f_trace_opcodes = True
                return local
            return None

        return glob

    def alone(self, t):
        return all(d for u, d in enumerate(self.done) if u != t)

    def next(self):
        """thread to run now, or None"""
        while self.pos < len(self.s):
            if not self.done[self.s[self.pos]]:
                return self.s[self.pos]
            self.pos += 1
        for t, d in enumerate(self.done):
            if not d:
                return t
        return None

    def hand(self, t):
        """the quantum of t is over"""
        with self.lock:
            self.left[t] -= 1
            self.pos += 1
            nx = self.next()
            if nx == t or nx is None:
                return
            self.switches += 1
            self.go[t].clear()
            self.go[nx].set()
        self.go[t].wait()

    def body(self, t, f, out):
        self.go[t].wait()
        if self.left[t] > 1 and not self.alone(t) or len(self.done) == 1:
            sys.settrace(self.tracer(t))
        try:
            out[t] = f()
        except BaseException as e:
            out[t] = {"ok": 0, "e": ["HARNESS", type(e).__name__, str(e)[:80]]}
        finally:
            sys.settrace(None)
            with self.lock:
                self.done[t] = True
                nx = self.next()
                if nx is not None:
                    self.go[nx].set()

    def run(self, fs, limit=20):
        out = [{"ok": 0, "e": ["TIMEOUT"]} for _ in fs]
        ths = [threading.Thread(target=self.body, args=(t, f, out), daemon=True) for t, f in enumerate(fs)]
        for th in ths:
            th.start()
        self.go[self.next()].set()
        t0 = time.time()
        seen, since = -1, t0
        for th in ths:
            while th.is_alive() and time.time() - t0 < limit:
                th.join(0.25)
                if self.ticks != seen:
                    seen, since = self.ticks, time.time()
                elif th.is_alive() and time.time() - since > 0.8:
                    self.free = True  # e.g. a lock held by a waiting thread: let everybody run
                    for g in self.go:
                        g.set()
        return out


def lines(f, ops=False):
    """number of steps of f when it runs alone"""
    s = Sched([0], [1 << 60], ops)
    s.run([f])
    return max(1, s.ticks)
