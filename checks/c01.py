"""C01: every fault point of a dataset download, on the real download code."""
import errno
import functools
import io
import os
import resource
import shutil
import signal
import sys
import tempfile
from contextlib import redirect_stdout

from vf import dsfix as fx
from vf.fakenet import Net, Resp

LEVEL = "fault_enumeration"
RULE = (
    "One execution per (data set, archives already present, fault kind, fault position): the real download code runs on a "
    "scripted connection or under a file-size limit / kill at every I/O event; afterwards the directory is inspected, and a "
    "healthy retry is run and its data compared with the complete data set. Outcomes are distinct "
    "(data set, fault kind, reported error, files left) tuples."
)
ASSUMPTIONS = [
    "The network is replaced below http.client (connect()); urllib/http.client run unmodified.",
    "Crash = process death between (or in the middle of) system calls; loss of unsynced data at power failure is not modelled.",
    "A body whose truncation is undetectable (plain text without Content-Length) is outside the space.",
]
BOUNDS = {
    "quick": "body cut at every byte of the small archives (EOF/reset, with/without Content-Length, chunked); file size limit and torn-write kill every byte step 7; kill/interrupt/ENOSPC at every I/O event",
    "thorough": "as quick, every byte for size limits and kills, multi-block archives at block borders, and all ordered pairs of consecutive faults before the retry",
}
EXPECT = {}


def setup():
    from vf.load import install

    install()
    import irspack.dataset  # noqa


def dirlist(d):
    return sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)


def quiet(fn):
    with redirect_stdout(io.StringIO()):
        return fn()


def healthy(name, pad=0):
    return Net({u: Resp(b) for u, b in fx.fixture(name, pad).items()})


def expected(name, pad=0):
    k = (name, pad)
    if k not in EXPECT:
        d = tempfile.mkdtemp(prefix="c01e")
        try:
            for key, p in fx.paths(name, d).items():
                with open(p, "wb") as f:
                    f.write(fx.archive_bytes(name, key, pad))
            with Net({}).installed():
                EXPECT[k] = fx.read_all(name, quiet(lambda: fx.construct(name, d, False)))
        finally:
            shutil.rmtree(d)
    return EXPECT[k]


def present(d, name, pre, pad):
    for key in pre:
        with open(fx.paths(name, d)[key], "wb") as f:
            f.write(fx.archive_bytes(name, key, pad))


_GOOD = set()


def archive_ok(name, key, path, pad):
    """The file at `path` is a complete archive (read through the package; memoized by content)."""
    with open(path, "rb") as f:
        k = (name, key, pad, f.read())
    if k in _GOOD:
        return None
    r = _archive_ok(name, key, path, pad)
    if r is None and len(_GOOD) < 5000:
        _GOOD.add(k)
    return r


def _archive_ok(name, key, path, pad):
    d = tempfile.mkdtemp(prefix="c01a")
    try:
        for k2, p in fx.paths(name, d).items():
            if k2 == key:
                shutil.copy(path, p)
            else:
                with open(p, "wb") as f:
                    f.write(fx.archive_bytes(name, k2, pad))
        with Net({}).installed() as net:
            try:
                got = fx.read_all(name, quiet(lambda: fx.construct(name, d, True)))
            except Exception as e:
                return f"{type(e).__name__}: {e}"
        if net.log or net.raw:
            return "network used for an existing archive"
        return None if got == expected(name, pad) else "data differ from the complete data set"
    finally:
        shutil.rmtree(d)


def after(ctx, name, d, pre, pad, what, reported, strict):
    ps = fx.paths(name, d)
    for key, p in ps.items():
        if key in pre:
            ctx.check(
                os.path.exists(p) and open(p, "rb").read() == fx.archive_bytes(name, key, pad),
                f"{name}: existing archive {key!r} was altered by {what}",
            )
        elif os.path.exists(p):
            bad = archive_ok(name, key, p, pad)
            ctx.check(bad is None, f"{name}: after {what} the archive path holds an incomplete archive ({bad})")
    files = dirlist(d)
    if reported is not None and strict:
        stray = [f for f in files if os.path.join(d, f) not in ps.values()]
        ctx.check(not stray, f"{name}: after {what} (reported as {reported}) stray files {stray} remain")
    if reported is None:
        ctx.check(all(os.path.exists(p) for p in ps.values()), f"{name}: {what}: success reported, archive missing")
    ctx.outcome(name, what.split("@")[0], str(reported).split(":")[0], len(files))


def close(m):
    (m.close if hasattr(m, "close") else getattr(m, "zf", io.BytesIO()).close)()


def complete(ctx, name, d, pad, what):
    for key, p in fx.paths(name, d).items():
        bad = archive_ok(name, key, p, pad) if os.path.exists(p) else "archive missing"
        ctx.check(bad is None, f"{name}: {what} ({bad})")


def retry(ctx, name, d, pad, what):
    with healthy(name, pad).installed() as net:
        try:
            close(quiet(lambda: fx.construct(name, d, True)))
        except Exception as e:
            ctx.fail(f"{name}: retry after {what} failed with {type(e).__name__}: {e}")
    ctx.step()
    complete(ctx, name, d, pad, f"retry after {what} reads incomplete data")
    ctx.check(not net.raw, f"{name}: unexpected network use {net.raw}")


def child(fn):
    """Runs fn in a forked process; ('ok'|'exc'|'killed', detail)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = fn()
                msg = f"ok {out if out is not None else ''}"
            except BaseException as e:
                sys.setprofile(None)
                msg = f"exc {type(e).__name__}: {e}"
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            os.write(w, msg.encode()[:4000])
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        data += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not data:
        return "killed", f"signal {os.WTERMSIG(st)}" if os.WIFSIGNALED(st) else "exit"
    k, _, v = data.decode().partition(" ")
    return k, v


FILE_OPS = {"write", "writelines", "flush", "close", "open", "replace", "rename", "unlink", "mkdir", "rmdir",
            "read", "readinto", "readline", "seek", "truncate", "fsync", "link", "symlink", "remove", "sendfile",
            "copy_file_range", "stat", "__exit__", "scandir"}
SPACE_OPS = {"write", "writelines", "flush", "open", "mkdir", "replace", "rename", "truncate", "fsync", "link"}


def _is_file_event(arg, ops):
    n = getattr(arg, "__name__", "")
    if n not in ops:
        return False
    owner = getattr(arg, "__self__", None)
    if isinstance(owner, io.BytesIO) or owner in (sys.stdout, sys.stderr) or isinstance(owner, io.StringIO):
        return False
    return True


def profiled(fn, ops, at, action):
    """Runs fn; before the at-th event of `ops` performs action.  at < 0: returns the number of events."""
    n = [0]

    def prof(frame, ev, arg):
        if ev == "c_call" and _is_file_event(arg, ops):
            n[0] += 1
            if n[0] - 1 == at:
                sys.setprofile(None)
                action()

    sys.setprofile(prof)
    try:
        fn()
    finally:
        sys.setprofile(None)
    return n[0]


def _no():
    pass


def _die():
    os.kill(os.getpid(), signal.SIGKILL)


def _int():
    raise KeyboardInterrupt()


def _nospc():
    raise OSError(errno.ENOSPC, "No space left on device")


ACTIONS = {"kill": (_die, FILE_OPS), "interrupt": (_int, FILE_OPS), "enospc": (_nospc, SPACE_OPS)}


def attempt(name, d, pad):
    def go():
        with healthy(name, pad).installed():
            close(quiet(lambda: fx.construct(name, d, True)))
    return go


@functools.lru_cache(maxsize=None)
def nevents(name, pre, kind, pad):
    d = tempfile.mkdtemp(prefix="c01n")
    try:
        present(d, name, pre, pad)
        k, v = child(lambda: profiled(attempt(name, d, pad), ACTIONS[kind][1], -1, _no))
        if k != "ok":
            return 0
        return int(v)
    finally:
        shutil.rmtree(d)


# ---------------------------------------------------------------- network faults
def net_fault(name, url, body, kind, pos):
    if kind == "refused":
        return Resp(refused=True)
    if kind == "nohdr":
        return Resp(drop_header=True)
    if kind == "http":
        return Resp(b"denied", status=pos)
    if kind == "html":
        return Resp(b"<html>please log in</html>" * (1 + 400 * pos))
    if kind == "empty":
        return Resp(b"", clen=bool(pos))
    if kind == "eof":
        return Resp(body, cut=pos)
    if kind == "reset":
        return Resp(body, cut=pos, reset=True)
    if kind == "noclen-eof":
        return Resp(body, cut=pos, clen=False)
    if kind == "noclen-reset":
        return Resp(body, cut=pos, clen=False, reset=True)
    if kind == "chunk-eof":
        return Resp(body, cut=pos, chunked=True)
    raise KeyError(kind)


def pres(name):
    if name.startswith("mind"):
        return [(), ("train",), ("dev",)]
    return [()]


def is_archive(name, url):
    return url.endswith((".zip", ".gz"))


def positions(body, pad, dense):
    if dense:
        return range(len(body))
    n = len(body)
    s = {0, 1, n - 1, n - 2, n - 21, n - 22, n - 23, n // 2}
    for b in range(4096, n + 4096, 4096):
        s |= {b - 1, b, b + 1}
    return sorted(p for p in s if 0 <= p < n)


def net_cases(tier):
    def gen():
        for name in fx.ALL:
            for pad, dense in ((0, True), (20000, False)):
                for pre in pres(name):
                    missing = [k for k in fx.paths(name, "") if k not in pre]
                    us = [u for k in missing for u in fx.url_of(name, k)]
                    for u in us:
                        body = fx.fixture(name, pad)[u]
                        if pad == 0:
                            yield [name, pad, pre, u, "refused", 0]
                            yield [name, pad, pre, u, "nohdr", 0]
                            for c in (400, 401, 403, 404, 409, 429, 500, 503):
                                yield [name, pad, pre, u, "http", c]
                            if is_archive(name, u):
                                for k in (0, 1):
                                    yield [name, pad, pre, u, "html", k]
                                    if u.endswith(".gz"):  # an empty file is a valid (empty) gzip stream
                                        continue
                                    yield [name, pad, pre, u, "empty", k]
                        heavy = name not in ("ml20m", "neumf-ml", "amazon") and (name, pre) != ("mind-small-hf", ("train",))
                        dn = dense and (tier == "thorough" or not heavy)
                        for p in positions(body, pad, dn):
                            for kind in ("eof", "reset", "chunk-eof"):
                                yield [name, pad, pre, u, kind, p]
                            yield [name, pad, pre, u, "noclen-reset", p]
                            if is_archive(name, u) and p > 0:
                                yield [name, pad, pre, u, "noclen-eof", p]
    return gen


def run_net(ctx, case):
    name, pad, pre, url, kind, pos = case
    d = tempfile.mkdtemp(prefix="c01")
    try:
        present(d, name, pre, pad)
        what = f"{kind}@{pos} on {url.rsplit('/', 1)[1]}"
        one_net(ctx, name, d, pre, pad, url, kind, pos, what)
        retry(ctx, name, d, pad, what)
    finally:
        shutil.rmtree(d)


def one_net(ctx, name, d, pre, pad, url, kind, pos, what):
    routes = {u: Resp(b) for u, b in fx.fixture(name, pad).items()}
    routes[url] = net_fault(name, url, routes[url].body, kind, pos)
    rep = None
    with Net(routes).installed():
        try:
            close(quiet(lambda: fx.construct(name, d, True)))
        except Exception as e:
            rep = f"{type(e).__name__}: {e}"
    ctx.step()
    if rep is None:
        complete(ctx, name, d, pad, f"{what} passed for a complete download")
    after(ctx, name, d, pre, pad, what, rep, True)


# ---------------------------------------------------------------- local faults
def ev_cases(tier):
    def gen():
        for name in fx.ALL:
            if tier == "quick" and name in ("mind-large-hf", "mind-large-az", "mind-small-az", "neumf-pin", "ml1m", "ml20m"):
                continue
            for pad in (0, 20000):
                for pre in pres(name):
                    for kind in ("kill", "interrupt", "enospc"):
                        for i in range(nevents(name, tuple(pre), kind, pad)):
                            yield [name, pad, pre, kind, i]
    return gen


def run_ev(ctx, case):
    name, pad, pre, kind, i = case
    act, ops = ACTIONS[kind]
    d = tempfile.mkdtemp(prefix="c01")
    try:
        present(d, name, pre, pad)
        k, v = child(lambda: profiled(attempt(name, d, pad), ops, i, act))
        ctx.step()
        what = f"{kind}@{i}"
        after(ctx, name, d, pre, pad, what, None if k == "ok" else f"{k} {v}", False)
        retry(ctx, name, d, pad, what)
    finally:
        shutil.rmtree(d)


def fs_cases(tier):
    def gen():
        for name in fx.ALL:
            if tier == "quick" and name in ("mind-large-hf", "mind-large-az", "mind-small-az", "neumf-pin", "ml1m", "ml20m"):
                continue
            for pad, stp in ((0, 7 if tier == "quick" else 1), (20000, 4096)):
                for pre in pres(name):
                    missing = [k for k in fx.paths(name, "") if k not in pre]
                    n = max(len(fx.fixture(name, pad)[u]) for k in missing for u in fx.url_of(name, k))
                    for lim in sorted(set(range(0, n, stp)) | {n - 1, n - 22}):
                        for mode in ("efbig", "torn-kill"):
                            yield [name, pad, pre, mode, lim]
    return gen


def run_fs(ctx, case):
    name, pad, pre, mode, lim = case
    d = tempfile.mkdtemp(prefix="c01")
    try:
        present(d, name, pre, pad)

        def go():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN if mode == "efbig" else signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, resource.RLIM_INFINITY))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            attempt(name, d, pad)()

        k, v = child(go)
        ctx.step()
        what = f"{mode}@{lim}"
        after(ctx, name, d, pre, pad, what, None if k == "ok" else f"{k} {v}", k == "exc")
        retry(ctx, name, d, pad, what)
    finally:
        shutil.rmtree(d)


# ---------------------------------------------------------------- two faults in a row
def pair_cases(tier):
    def gen():
        for name in ("ml100k", "citeulike", "neumf-ml", "amazon", "mind-small-hf"):
            us = list(fx.fixture(name))
            faults = []
            for u in us:
                n = len(fx.fixture(name)[u])
                faults += [[u, "refused", 0], [u, "http", 403], [u, "http", 500], [u, "eof", n // 2], [u, "reset", n - 1]]
                if is_archive(name, u):
                    faults += [[u, "html", 0], [u, "noclen-eof", n - 5]]
            if name != "amazon":
                faults += [["", "kill", i] for i in range(0, nevents(name, (), "kill", 0), 3 if tier == "quick" else 1)]
            for a in faults:
                for b in faults:
                    yield [name, a, b]
    return gen


def run_pair(ctx, case):
    name, a, b = case
    d = tempfile.mkdtemp(prefix="c01")
    try:
        for f in (a, b):
            what = f"{f[1]}@{f[2]} in sequence {a[1:]} {b[1:]}"
            if all(os.path.exists(p) for p in fx.paths(name, d).values()):
                break
            if f[1] == "kill":
                before = dirlist(d)
                k, v = child(lambda: profiled(attempt(name, d, 0), FILE_OPS, f[2], _die))
                after(ctx, name, d, (), 0, what, None if k == "ok" else k, False)
            else:
                routes = {u: Resp(x) for u, x in fx.fixture(name, 0).items()}
                routes[f[0]] = net_fault(name, f[0], routes[f[0]].body, f[1], f[2])
                before = dirlist(d)
                rep = None
                with Net(routes).installed():
                    try:
                        close(quiet(lambda: fx.construct(name, d, True)))
                    except Exception as e:
                        rep = f"{type(e).__name__}: {e}"
                if rep is None:
                    complete(ctx, name, d, 0, f"{what} passed for a complete download")
                else:
                    new = [x for x in dirlist(d) if x not in before and os.path.join(d, x) not in fx.paths(name, d).values()]
                    ctx.check(not new, f"{name}: after {what} stray files {new} remain")
                after(ctx, name, d, (), 0, what, rep, False)
            ctx.step()
        retry(ctx, name, d, 0, f"{a[1:]} {b[1:]}")
    finally:
        shutil.rmtree(d)


def families(tier):
    return {
        "network_fault": (net_cases(tier), run_net),
        "io_event_fault": (ev_cases(tier), run_ev),
        "disk_full_and_torn_write": (fs_cases(tier), run_fs),
        "fault_sequences": (pair_cases(tier), run_pair),
    }
