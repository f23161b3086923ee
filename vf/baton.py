"""Deterministic cooperative scheduler for Python threads.

Exactly one thread runs at a time; `point(label)` is a scheduling point.  A run
is determined by the list of choices taken at the points where more than one
thread is enabled; `explore` enumerates all of them up to a preemption bound.
"""
import threading
import time

_local = threading.local()


class Deadlock(Exception):
    pass


class Sched:
    def __init__(self, choices):
        self.choices = list(choices)
        self.trace = []  # (chosen, enabled, running or None)
        self.cv = threading.Condition()
        self.cur = None
        self.live = []
        self.errors = {}
        self.log = []

    def _pick(self, running):
        enabled = sorted(self.live)
        if not enabled:
            return None
        if running in enabled:  # default: go on with the running thread
            enabled.remove(running)
            enabled.insert(0, running)
        k = 0
        if len(enabled) > 1:
            i = len(self.trace)
            k = self.choices[i] if i < len(self.choices) else 0
            self.trace.append((k, len(enabled), running in self.live))
        return enabled[k]

    def point(self, label=None):
        me = getattr(_local, "id", None)
        if me is None or getattr(_local, "sched", None) is not self:
            return
        with self.cv:
            self.log.append((me, label))
            nxt = self._pick(me)
            if nxt != me:
                self.cur = nxt
                self.cv.notify_all()
                while self.cur != me:
                    self.cv.wait()

    def run(self, fns):
        def body(i):
            _local.id, _local.sched = i, self
            with self.cv:
                while self.cur != i:
                    self.cv.wait()
            try:
                fns[i]()
            except BaseException as e:  # reported by the caller
                self.errors[i] = e
            with self.cv:
                self.live.remove(i)
                if self.cur == i or self.cur not in self.live:
                    self.cur = self._pick(i)
                self.cv.notify_all()

        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(fns))]
        self.live = list(range(len(fns)))
        for t in ts:
            t.start()
        with self.cv:
            self.cur = self._pick(None)
            self.cv.notify_all()
        # A thread that stays silent is blocked on something another thread holds
        # (a lock of the code under test): let the others go on.
        seen, since, stuck = -1, time.time(), 0
        while any(t.is_alive() for t in ts):
            next(t for t in ts if t.is_alive()).join(0.05)
            with self.cv:
                now = (len(self.log), len(self.live))
                if now != seen:
                    seen, since = now, time.time()
                elif time.time() - since > 2:
                    others = [i for i in sorted(self.live) if i != self.cur]
                    stuck += 1
                    if not others or stuck > 20:
                        raise Deadlock(f"threads stuck after {self.log[-5:]}")
                    self.cur = others[stuck % len(others)]
                    self.cv.notify_all()
                    since = time.time()
        return self


def explore(execute, bound, prefix=()):
    """execute(choices) -> trace.  All choice sequences extending `prefix` with
    at most `bound` preemptions (switches away from a thread that could go on)."""
    n = 0
    stack = [list(prefix)]
    while stack:
        ch = stack.pop()
        trace = execute(ch)
        n += 1
        for i in range(len(ch), len(trace)):
            pre = sum(1 for (k, _, running) in trace[:i] if k and running)
            _, width, running = trace[i]
            if running and pre + 1 > bound:
                continue
            for k in range(1, width):
                stack.append([t[0] for t in trace[:i]] + [k])
    return n
