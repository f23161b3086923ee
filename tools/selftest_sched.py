"""Self-test of the scheduler, the explorer and the race detector on programs with a known verdict."""
import ctypes, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf import build, sched
OK = {"ok_mutex": 4, "ok_atomic": 10, "ok_publish": {0, 7}, "ok_queue": 3, "ok_promise": 5, "ok_shared_ptr": 9, "ok_static": 6, "ok_once": 8, "ok_tls": 2, "ok_rw": 1, "ok_async": 6, "ok_packaged": 9, "ok_strings": 160, "ok_heap": 6}
VAL = {"value_lost": {1, 2}, "value_skip": {3, 4}}
RACE = ["race_counter", "race_cursor", "race_relaxed", "race_read", "race_neighbours", "race_free", "race_sometimes", "race_async_buf"]
d = tempfile.mkdtemp()
so = os.path.join(d, "cases.so")
try:
    build._run(["clang++", "-std=c++17", "-fPIC", "-w", "-pthread", "-fvisibility=hidden"] + build.VARIANTS["sched"][1:] + ["-c", f"{V}/selftest/cases.cpp", "-o", f"{d}/m.o"])
    build._run(["g++", "-std=c++17", "-O2", "-fPIC", "-fvisibility=hidden", "-w", "-c", f"{V}/shim/vf_rt.cpp", "-o", f"{d}/r.o"])
    build._run(["g++", "-shared", "-pthread", f"{d}/m.o", f"{d}/r.o", "-o", so, "-static-libstdc++", "-static-libgcc", "-Wl,-Bsymbolic", "-Wl,--exclude-libs,ALL"] + ["-Wl,--wrap=" + w for w in build.WRAP])

    def run(name):
        """in a child process: (verdict, values, schedules)"""
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            m = sched.Module(so)
            f = getattr(m.lib, name)
            vals = set()
            try:
                if not name.startswith(("dead", "left", "race")):
                    f()
                res = sched.explore(m, lambda: f(), lambda v, e, s: vals.add(v), limit=20000)
                out = ("done" if res.complete else "cut", vals, res.schedules, res.redundant)
            except sched.Raced as e:
                out = ("race", str(e)[:90])
            except sched.Unfinished as e:
                out = ("left",)
            os.write(w, repr(out).encode())
            os._exit(0)
        os.close(w)
        b = os.read(r, 10000)
        _, st = os.waitpid(pid, 0)
        return eval(b) if b else ("killed", st)
    bad = 0

    def expect(name, ok, got):
        global bad
        print(f"{'ok ' if ok else 'BAD'} {name}: {got}")
        bad += not ok
    for n, v in OK.items():
        g = run(n)
        expect(n, g[0] == "done" and g[1] == (v if isinstance(v, set) else {v}), g)
    for n, v in VAL.items():
        g = run(n)
        expect(n, g[0] == "done" and g[1] == v, g)
    for n in RACE:
        expect(n, run(n)[0] == "race", run(n))
    expect("left_detached", run("left_detached")[0] in ("left", "killed"), run("left_detached"))
    for n in ("dead_abba", "dead_wait"):
        expect(n, run(n)[0] == "killed", run(n))
    sys.exit(bad > 0)
finally:
    subprocess.run(["rm", "-rf", d])
