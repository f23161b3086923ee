"""C02: consent, exact set of requests, and where the access token goes."""
import builtins
import io
import itertools
import os
import shutil
import sys
import tempfile
from contextlib import contextmanager

from checks import c01
from checks.c01 import child, close, quiet
from vf import dsfix as fx
from vf.fakenet import Net, Resp, urls

LEVEL = "model_checking"
RULE = (
    "Explicit enumeration of the whole decision space (data set x archives present x force x answer; token sources x redirect chains x "
    "archives present; default locations), each point executed on the real code over a scripted connection, and the recorded prompts, requests, "
    "headers and directory contents compared with the decision table of the property."
)
ASSUMPTIONS = ["The network is replaced below http.client (connect()); name resolution and raw sockets are trapped and reported."]
BOUNDS = {t: "11 data-set configurations, all subsets of present archives, 12 answers, 4x4x4 token sources, redirect chains up to length 3; every look of an existing archive (size, age, mode, link)" for t in ("quick", "thorough")}
HFHOST = "huggingface.co"


def setup():
    c01.setup()


@contextmanager
def env(**kw):
    old = {k: os.environ.get(k) for k in kw}
    for k, v in kw.items():
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


@contextmanager
def answering(a):
    asked = []

    def fake(prompt=""):
        asked.append(prompt)
        if a == "<EOF>":
            raise EOFError()
        if a == "<INT>":
            raise KeyboardInterrupt()
        return a

    old, old_in = builtins.input, sys.stdin
    builtins.input = fake
    sys.stdin = io.StringIO("" if a.startswith("<") else a + "\n")
    try:
        yield asked
    finally:
        builtins.input, sys.stdin = old, old_in


def snapshot(d):
    return {
        os.path.relpath(os.path.join(r, f), d): open(os.path.join(r, f), "rb").read() for r, _, fs in os.walk(d) for f in fs
    } | {os.path.relpath(os.path.join(r, f), d) + "/": None for r, ds, _ in os.walk(d) for f in ds}


YES, NO = ["y", "Y"], ["", "n", "N", "no", "NO", "x", "0", "y/n", "<EOF>", "<INT>"]


def consent_cases():
    for name in fx.ALL:
        keys = list(fx.paths(name, ""))
        for r in range(len(keys) + 1):
            for pre in itertools.combinations(keys, r):
                for force in (True, False):
                    for ans in YES + NO:
                        for tok in (None, "s3cr3t"):
                            if force and ans not in ("y", "n"):
                                continue
                            yield [name, pre, force, ans, tok]


def run_consent(ctx, case):
    name, pre, force, ans, tok = case
    top = tempfile.mkdtemp(prefix="c02")
    d = os.path.join(top, "x")
    mind = name.startswith("mind")
    if not mind or pre:
        os.makedirs(d)
    try:
        for key in pre:
            with open(fx.paths(name, d)[key], "wb") as f:
                f.write(fx.archive_bytes(name, key))
        before = snapshot(top)
        missing = [k for k in fx.paths(name, "") if k not in pre]
        err = None
        net = Net({u: Resp(b) for u, b in fx.fixture(name).items()})
        with env(HF_TOKEN=tok, HUGGING_FACE_HUB_TOKEN=None), answering(ans) as asked, net.installed():
            try:
                m = quiet(lambda: fx.construct(name, d, force, kind="path" if tok else None))
                got = fx.read_all(name, m)
            except BaseException as e:
                err = e
        ctx.step()
        ctx.outcome(name, len(missing), force, ans, type(err).__name__, len(asked))
        ctx.check(not net.raw, f"{name}: raw network use {net.raw}")
        after = snapshot(top)
        if not missing:
            ctx.check(err is None, f"{name}: archives present but {err!r}")
            ctx.check(not asked, f"{name}: prompted although every archive exists")
            ctx.check(not net.log, f"{name}: network used although every archive exists")
            ctx.check(before == after, f"{name}: existing archive files changed")
            ctx.check(got == c01.expected(name), f"{name}: existing archives read differently")
            return
        if force or ans in YES:
            ctx.check(err is None, f"{name}: consented download failed: {err!r}")
            if force:
                ctx.check(not asked, f"{name}: prompted although force_download was given")
            else:
                ctx.check(len(asked) > 0, f"{name}: never asked for consent")
            want = sorted(u for k in missing for u in fx.url_of(name, k))
            ctx.eq(sorted(urls(net)), want, f"{name}: requested URLs (present: {pre})")
            ctx.check(all(r["method"] == "GET" for r in net.log), f"{name}: methods {[r['method'] for r in net.log]}")
            for k, v in before.items():
                if v is not None:
                    ctx.check(after.get(k) == v, f"{name}: existing archive {k} changed")
            ctx.check(got == c01.expected(name), f"{name}: downloaded data differ")
        else:
            ctx.check(err is not None, f"{name}: no error although the user answered {ans!r}")
            ctx.check(not net.log, f"{name}: network used although the user answered {ans!r}")
            ctx.check(before == after, f"{name}: files were created although the user answered {ans!r}")
    finally:
        shutil.rmtree(top)


CDN, CDN2, SUB = "cdn.example.com", "cas-bridge.xethub.hf.co", "cdn-lfs.huggingface.co"
CHAINS = {
    "direct": [],
    "cdn": ["https://" + CDN + "/a"],
    "cdn-http": ["http://" + CDN + "/a"],
    "xet": ["https://" + CDN2 + "/a?sig=1"],
    "subdomain": ["https://" + SUB + "/a"],
    "port": ["https://huggingface.co.evil.example/a"],
    "same": ["https://huggingface.co/other"],
    "same-cdn": ["https://huggingface.co/other", "https://" + CDN + "/a"],
    "cdn-cdn": ["https://" + CDN + "/a", "https://" + SUB + "/b"],
    "cdn-same-cdn": ["https://" + CDN + "/a", "https://huggingface.co/other", "https://" + SUB + "/b"],
}


def token_cases():
    for name in fx.ALL:
        mind = name.startswith("mind")
        for arg in ((None, "", "argtok", "a b") if mind else (None,)):
            for e1 in (None, "", "env1tok", "env1tok2"):
                for e2 in (None, "", "env2tok"):
                    chains = CHAINS if mind else ("direct", "cdn")
                    for ch in chains:
                        for code in (301, 302, 303, 307, 308):
                            if ch == "direct" and code != 302:
                                continue
                            if code not in (302, 307) and (e1 == "env1tok2" or arg == "a b"):
                                continue
                            yield [name, arg, e1, e2, ch, code]


def run_token(ctx, case):
    name, arg, e1, e2, ch, code = case
    d = tempfile.mkdtemp(prefix="c02")
    mind = name.startswith("mind")
    hf = name.endswith("-hf")
    try:
        routes = {}
        for i, (u, b) in enumerate(fx.fixture(name).items()):
            hops = [h.replace("/a", f"/a{i}").replace("/b", f"/b{i}").replace("/other", f"/other{i}") for h in CHAINS[ch]]
            seq = [u] + hops
            for a, nxt in zip(seq, seq[1:]):
                routes[a] = Resp(b"", status=code, headers=[("Location", nxt)])
            routes[seq[-1]] = Resp(b)
        net = Net(routes)
        err = None
        with env(HF_TOKEN=e1, HUGGING_FACE_HUB_TOKEN=e2), answering("n"), net.installed():
            try:
                close(quiet(lambda: fx.construct(name, d, True, token=arg)))
            except Exception as e:
                err = e
        ctx.step()
        tok = (arg or e1 or e2) or None
        secrets = [t for t in (arg, e1, e2) if t]
        ctx.outcome(name, ch, code, tok, type(err).__name__, len(net.log))
        ctx.check(err is None, f"{name}: download over {ch}/{code} failed: {err!r}")
        firsts = {u.split("//", 1)[1].split("/", 1)[1]: u for u in fx.fixture(name)}
        for r in net.log:
            blob = r["path"] + "\n" + "\n".join(f"{k}: {v}" for k, v in r["headers"].items())
            leak = [s for s in secrets if s in blob]
            if not (hf and r["host"] == HFHOST):
                ctx.check(not leak and "authorization" not in r["headers"],
                          f"{name} [{ch}/{code}]: token sent to {r['scheme']}://{r['host']}{r['path']}")
            elif r["path"].lstrip("/") in firsts:
                want = f"Bearer {tok}" if tok else None
                ctx.eq(r["headers"].get("authorization"), want, f"{name} [{ch}]: Authorization header for arg={arg!r} env={e1!r},{e2!r}")
                ctx.check(all(s == tok for s in leak) or (tok in leak and all(s in tok for s in leak)), f"{name}: other token sent")
    finally:
        shutil.rmtree(d)


def default_cases():
    for name in fx.ALL:
        keys = list(fx.paths(name, ""))
        for r in range(len(keys) + 1):
            for pre in itertools.combinations(keys, r):
                for force in (True, False):
                    yield [name, pre, force]


DEFAULTS = {"ml100k": ".ml-100k.zip", "ml1m": ".ml-1m.zip", "ml20m": ".ml-20m.zip", "citeulike": ".citeulike-a.zip",
            "neumf-ml": ".neumf-ml-1m.zip", "neumf-pin": ".neumf-pinterest.zip", "amazon": ".amazon-music.zip"}


def default_paths(name, home):
    if name.startswith("mind"):
        size = name.split("-")[1]
        return {s: os.path.join(home, ".mind", f"MIND{size}_{s}.zip") for s in ("train", "dev")}
    return {"zip": os.path.join(home, DEFAULTS[name])}


def run_default(ctx, case):
    name, pre, force = case
    home = tempfile.mkdtemp(prefix="c02h")
    try:
        ps = default_paths(name, home)
        for k in pre:
            os.makedirs(os.path.dirname(ps[k]), exist_ok=True)
            with open(ps[k], "wb") as f:
                f.write(fx.archive_bytes(name, k))
        before = snapshot(home)

        def go():
            os.environ["HOME"] = home
            for m in [m for m in sys.modules if m.startswith("irspack.dataset")]:
                del sys.modules[m]
            sys.modules["irspack"].__dict__.pop("dataset", None)
            from irspack import dataset as ds

            net = Net({u: Resp(b) for u, b in fx.fixture(name).items()})
            with env(HF_TOKEN=None, HUGGING_FACE_HUB_TOKEN=None), answering("n"), net.installed():
                if name.startswith("mind"):
                    _, size, src = name.split("-")
                    kw = {} if size == "small" else dict(size=size)
                    if src == "az":
                        kw["download_source"] = "azure"
                    m = quiet(lambda: ds.MINDDataManager(force_download=force, **kw))
                else:
                    cls = {"ml100k": "MovieLens100KDataManager", "ml1m": "MovieLens1MDataManager", "ml20m": "MovieLens20MDataManager",
                           "citeulike": "CiteULikeADataManager", "neumf-ml": "NeuMFML1MDownloader",
                           "neumf-pin": "NeuMFMPinterestDownloader", "amazon": "AmazonMusicDataManager"}[name]
                    m = quiet(lambda: getattr(ds, cls)(force_download=force))
                got = fx.read_all(name, m)
            return f"{got == c01.expected(name)} {len(net.log)}"

        k, v = child(go)
        ctx.step()
        missing = [x for x in ps if x not in pre]
        n = sum(len(fx.url_of(name, x)) for x in missing)
        after = snapshot(home)
        ctx.outcome(name, pre, force, k)
        if missing and not force:
            ctx.eq(k, "exc", f"{name}: default location, refused consent")
            ctx.check(before == after, f"{name}: default location written without consent")
        else:
            ctx.eq((k, v), ("ok", f"True {n}"), f"{name}: default location, present={pre}, force={force}")
            ctx.eq(sorted(x for x in after if after[x] is not None), sorted(os.path.relpath(p, home) for p in ps.values()),
                   f"{name}: archives at the default location")
            for x, b in before.items():
                ctx.check(after.get(x, 0) == b, f"{name}: {x} changed")
    finally:
        shutil.rmtree(home)


def invalid_cases():
    for size in ("tiny", "Small", "", None, "small ", "LARGE"):
        for src in ("huggingface", "azure", "s3", "", None):
            yield [size, src]
    for src in ("hf", "Azure", "", None):
        for size in ("small", "large"):
            yield [size, src]


def run_invalid(ctx, case):
    from irspack.dataset import MINDDataManager

    size, src = case
    d = tempfile.mkdtemp(prefix="c02")
    try:
        net = Net({})
        with answering("y") as asked, net.installed():
            ctx.raises(ValueError, lambda: quiet(lambda: MINDDataManager(
                os.path.join(d, "a"), os.path.join(d, "b"), size=size, download_source=src, force_download=True)),
                f"size={size!r} download_source={src!r}")
        ctx.step()
        ctx.check(not net.log and not asked and not os.listdir(d), "an invalid configuration reached the network or the disk")
    finally:
        shutil.rmtree(d)


EXIST = ("empty zip", "one byte member", "old", "read-only", "symlink", "prefixed", "comment", "large")


def existing_cases():
    for name in fx.ALL:
        keys = list(fx.paths(name, ""))
        for kind in EXIST:
            for r in range(1, len(keys) + 1):
                for pre in itertools.combinations(keys, r):
                    for force in (True, False):
                        yield [name, kind, pre, force]


def run_existing(ctx, case):
    """Whatever a present archive looks like (size, age, mode, link), it is used as is."""
    import io
    import zipfile

    name, kind, pre, force = case
    top = tempfile.mkdtemp(prefix="c02")
    d = os.path.join(top, "x")
    os.makedirs(d)
    try:
        for key in pre:
            p = fx.paths(name, d)[key]
            data = fx.archive_bytes(name, key)
            if kind in ("empty zip", "one byte member"):
                b = io.BytesIO()
                with zipfile.ZipFile(b, "w") as z:
                    if kind == "one byte member":
                        z.writestr("a", "b")
                data = b.getvalue()
            elif kind == "prefixed":
                data = b"#!stub" + data
            elif kind in ("comment", "large"):
                b = io.BytesIO(data)
                with zipfile.ZipFile(b, "a") as z:
                    if kind == "comment":
                        z.comment = b"note"
                    else:
                        z.writestr("extra", b"0123456789" * 300000)
                data = b.getvalue()
            q = os.path.join(top, "elsewhere-" + key) if kind == "symlink" else p
            with open(q, "wb") as f:
                f.write(data)
            if kind == "symlink":
                os.symlink(q, p)
            if kind == "old":
                os.utime(p, (0, 0))
            if kind == "read-only":
                os.chmod(p, 0o444)
        meta = {fx.paths(name, d)[k]: os.lstat(fx.paths(name, d)[k]) for k in pre}
        before = snapshot(top)
        missing = [k for k in fx.paths(name, "") if k not in pre]
        net = Net({u: Resp(b) for u, b in fx.fixture(name).items()})
        err = None
        with env(HF_TOKEN=None, HUGGING_FACE_HUB_TOKEN=None), answering("n") as asked, net.installed():
            try:
                quiet(lambda: fx.construct(name, d, force))
            except Exception as e:
                err = e
        msg = f"{name}: existing archive ({kind}) {list(pre)}, force_download={force}"
        ctx.check(not net.raw, f"{msg}: raw network use {net.raw}")
        after = snapshot(top)
        for k, v in before.items():
            ctx.check(k in after and after[k] == v, f"{msg}: {k} changed")
        for q, st in meta.items():
            n = os.lstat(q)
            ctx.check((n.st_ino, n.st_mode, n.st_size, n.st_mtime_ns) == (st.st_ino, st.st_mode, st.st_size, st.st_mtime_ns), f"{msg}: the file was replaced or touched")
        if not missing:
            ctx.check(err is None, f"{msg}: {err!r}")
            ctx.check(not asked and not net.log, f"{msg}: prompted {len(asked)} times, requested {urls(net)}")
        elif force:
            ctx.check(err is None, f"{msg}: {err!r}")
            ctx.eq(sorted(urls(net)), sorted(u for k in missing for u in fx.url_of(name, k)), f"{msg}: requested URLs")
        else:
            ctx.check(err is not None and not net.log and after == before, f"{msg}: no consent but {urls(net)}, error {err!r}")
        ctx.step()
        ctx.outcome(name, kind, len(pre), force)
    finally:
        shutil.rmtree(top)


def families(tier):
    return {
        "existing": (existing_cases, run_existing),
        "consent": (consent_cases, run_consent),
        "token": (token_cases, run_token),
        "default_location": (default_cases, run_default),
        "invalid_configuration": (invalid_cases, run_invalid),
    }
