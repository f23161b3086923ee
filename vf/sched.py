"""Exploration of every interleaving of an extension's worker threads.

`Module` talks to the runtime (shim/vf_rt.cpp) inside an extension built as the
"sched" variant.  `explore` runs a call again and again, each time under another
schedule, until dynamic partial-order reduction (Flanagan and Godefroid, with
sleep sets) has no schedule left that could behave differently.
"""
import ctypes
import subprocess

import numpy as np

MAXT = 32
LOAD, STORE, RMW, LOCK, UNLOCK, CREATE, EXIT, JOIN, START, WAKE = range(1, 11)
STEP = np.dtype([("tid", "i4"), ("kind", "i4"), ("obj", "u8"), ("enabled", "u8"), ("sleep", "u8"),
                 ("pend_kind", "i4", (MAXT,)), ("pend_obj", "u8", (MAXT,)), ("phase", "u8")])
RACE = np.dtype([("addr", "u8"), ("pc", "u8"), ("other_pc", "u8"), ("a", "i4"), ("b", "i4"), ("wa", "i4"), ("wb", "i4"), ("size", "i4"), ("_p", "i4")])


class Module:
    def __init__(self, path):
        self.path = path
        l = self.lib = ctypes.CDLL(path)
        l.vf_begin.argtypes = [ctypes.POINTER(ctypes.c_int), ctypes.c_int, ctypes.c_uint64, ctypes.c_int]
        for f in ("vf_trace", "vf_race", "vf_base"):
            getattr(l, f).restype = ctypes.c_void_p
        l.vf_accesses.restype = ctypes.c_long
        assert l.vf_step_size() == STEP.itemsize, (l.vf_step_size(), STEP.itemsize)

    def begin(self, prefix, sleep=0, fail=0):
        a = (ctypes.c_int * max(1, len(prefix)))(*prefix)
        self.lib.vf_begin(a, len(prefix), sleep, fail)

    def end(self):
        n = self.lib.vf_end()
        if n <= 0:
            return n, np.empty(0, STEP)
        buf = ctypes.string_at(self.lib.vf_trace(), n * STEP.itemsize)
        return n, np.frombuffer(buf, STEP)

    def races(self):
        n = self.lib.vf_races()
        if not n:
            return []
        buf = ctypes.string_at(self.lib.vf_race(), n * RACE.itemsize)
        base = self.lib.vf_base()
        out = []
        for r in np.frombuffer(buf, RACE):
            out.append(f"{'write' if r['wa'] else 'read'} by thread {r['a']} and {'write' if r['wb'] else 'read'} by thread {r['b']} at {self.where(int(r['pc']) - base)}")
        return out

    def where(self, off):
        try:
            o = subprocess.run(["addr2line", "-ie", self.path, hex(off)], stdout=subprocess.PIPE, text=True, timeout=60).stdout.split("\n")
        except Exception:
            return hex(off)
        for l in o:
            if "cpp_source" in l:
                return l.split("cpp_source/")[-1]
        return o[0] if o else hex(off)


def mem(k):
    return 1 <= k <= 5


def dependent(k1, o1, k2, o2):
    if k1 == CREATE and k2 == CREATE:
        return True
    if (k1 == EXIT and k2 == JOIN) or (k1 == JOIN and k2 == EXIT):
        return o1 == o2
    if mem(k1) and mem(k2):
        return o1 == o2 and not (k1 == LOAD and k2 == LOAD)
    return False


def coenabled(k1, k2):
    if (k1 == EXIT and k2 == JOIN) or (k1 == JOIN and k2 == EXIT):
        return False
    if {k1, k2} == {LOCK, UNLOCK}:
        return False
    return True


class Node:
    __slots__ = ("phase", "tid", "enabled", "sleep", "done", "backtrack", "pk", "po")


def bits(m):
    i = 0
    while m:
        if m & 1:
            yield i
        m >>= 1
        i += 1


class Result:
    schedules = 0
    redundant = 0
    steps = 0
    accesses = 0
    complete = True


def explore(mod, call, judge, limit=None, fail=0, product=False, prepare=None):
    """call(): one run of the code under test; what must not be scheduled is done
    by prepare(), whose value it gets.  judge(value, error, schedule) is called
    after every schedule.

    A call may consist of several parallel phases, each ending with all its
    workers joined.  Unless `product`, every schedule of each phase is combined
    with one schedule of the others (the sum instead of the product)."""
    res = Result()
    nodes = []
    prefix, sleep = [], 0
    dev = None  # the phase in which the schedule differs from the first one
    while True:
        arg = prepare() if prepare else None
        mod.begin(prefix, sleep, fail)
        val = err = None
        try:
            val = call(arg) if prepare else call()
        except Exception as e:
            err = e
        n, tr = mod.end()
        flags = mod.lib.vf_flags()
        res.schedules += 1
        res.accesses += mod.lib.vf_accesses()
        rc = mod.races()
        res.trace = tr
        schedule = tr["tid"].tolist()
        if n < 0:
            raise Unfinished("worker threads are still running when the call has returned")
        if flags & 2:  # the execution does not repeat: the schedule is not the one asked for
            res.complete = False
        if rc:
            raise Raced(f"data race: {'; '.join(sorted(set(rc))[:3])} (schedule {schedule})")
        res.steps += n
        if flags & 1:
            res.redundant += 1
        judge(val, err, schedule)
        if flags & 2:
            return res
        # extend the stack with what was executed after the prefix
        tids = schedule
        kinds = tr["kind"].tolist()
        objs = tr["obj"].tolist()
        for i in range(len(nodes), n):
            nd = Node()
            nd.enabled = int(tr["enabled"][i])
            nd.sleep = int(tr["sleep"][i])
            nd.pk = tr["pend_kind"][i].tolist()
            nd.po = tr["pend_obj"][i].tolist()
            nd.done = 0
            nd.backtrack = 0
            nd.phase = int(tr["phase"][i])
            nodes.append(nd)
        for i in range(n):
            nodes[i].tid = tids[i]
            nodes[i].done |= 1 << tids[i]
        del nodes[n:]
        # object identities of this run
        for i in range(n):
            nodes[i].pk = tr["pend_kind"][i].tolist()
            nodes[i].po = tr["pend_obj"][i].tolist()
        # happens-before over the steps, and backtracking points
        T = max(max(tids, default=0) + 1, int(mod.lib.vf_threads()))
        cl = [[-1] * T for _ in range(T)]  # clock of each thread: last step of each thread known
        sc = []  # clock of each step
        birth = {}
        for i in range(n):
            p, k, o = tids[i], kinds[i], objs[i]
            c = cl[p]
            if k == START:
                b = next(j for j in range(n) if nodes[j].pk[p])
                if b > 0:
                    c = [max(x, y) for x, y in zip(c, sc[b - 1])]
            # the last dependent step that could have been swapped
            before = c
            race = None
            new = c
            for j in range(i - 1, -1, -1):
                q = tids[j]
                if q == p:
                    continue
                dep = dependent(kinds[j], objs[j], k, o) or (k == WAKE and mem(kinds[j]) and objs[j] == o)
                if not dep:
                    continue
                if race is None and j > before[q] and k != WAKE and coenabled(kinds[j], k):
                    race = j
                if sc[j][q] > new[q] or any(x > y for x, y in zip(sc[j], new)):
                    new = [max(x, y) for x, y in zip(new, sc[j])]
            if race is not None and (product or dev is None or nodes[race].phase == dev):
                nd = nodes[race]
                if nd.enabled >> p & 1:
                    nd.backtrack |= 1 << p
                else:
                    nd.backtrack |= nd.enabled
            new = list(new)
            new[p] = i
            cl[p] = new
            sc.append(new)
        # next schedule
        while nodes:
            nd = nodes[-1]
            todo = nd.backtrack & ~nd.done & ~nd.sleep & nd.enabled
            if todo:
                break
            nodes.pop()
        if not nodes:
            return res
        if limit and res.schedules >= limit:
            res.complete = False
            return res
        t = next(bits(todo))
        nd = nodes[-1]
        dev = nd.phase
        sl = 0
        for x in bits((nd.sleep | nd.done) & ~(1 << t)):
            if nd.pk[x] and not dependent(nd.pk[x], nd.po[x], nd.pk[t], nd.po[t]):
                sl |= 1 << x
        nd.done |= 1 << t
        nd.tid = t
        prefix = [m.tid for m in nodes]
        sleep = sl


class Raced(Exception):
    pass


class Unfinished(Exception):
    pass
