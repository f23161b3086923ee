"""C12: last-n split of every small event log."""
import itertools
import math

from vf.ids import TIME_DTYPE, TIMES, kinds

LEVEL = "model_checking"
RULE = (
    "Every sequence of (user, timestamp) rows up to the bound - all users, all timestamps with ties, all row orders - is split by the real code for "
    "every n, ratio and rounding mode of a grid and checked row by row against the partition model; further families vary id/time types, indexes "
    "(reordered, duplicated) and columns."
)
ASSUMPTIONS = ["User ids and timestamps are not missing.", "Among rows of one user with equal timestamps any may be held out."]
BOUNDS = {"quick": "logs up to 5 rows over 2 users x 3 timestamps (all; a quarter of the configurations for each 5-row log and type variant), 7 type and index variants and 14 time types on logs of 4 rows, 16 id types on logs of 3; logs of hundreds of rows", "thorough": "logs up to 6 rows over 3 users x 3 timestamps"}
RATIOS = [0.0, 0.1, 0.25, 1 / 3, 0.5, 0.75, 0.9, 1.0]


def setup():
    from vf.load import install

    install()
    import irspack.split  # noqa


def cases(tier):
    def gen():
        big = tier == "thorough"
        # all timestamp/user sequences; by symmetry users are numbered by first appearance
        def seqs(n, users, times):
            for us in itertools.product(range(users), repeat=n):
                seen = -1
                ok = True
                for u in us:
                    if u > seen + 1:
                        ok = False
                        break
                    seen = max(seen, u)
                if not ok:
                    continue
                for ts in itertools.product(range(times), repeat=n):
                    yield us, ts
        for n in range(1, 6):
            for us, ts in seqs(n, 2, 3):
                yield [us, ts, "int", "range", "float"]
        if big:
            for us, ts in seqs(6, 3, 2):
                yield [us, ts, "int", "range", "float"]
            for us, ts in seqs(5, 3, 3):
                yield [us, ts, "int", "range", "float"]
        for us, ts in seqs(4, 3, 3):
            for ut, ix, tt in (("str", "range", "float"), ("cat", "range", "dt"), ("int", "rev", "int"), ("str", "dup", "dt"), ("obj", "str", "str"), ("neg", "dup", "negfloat"), ("mixed", "dup", "int")):
                yield [us, ts, ut, ix, tt]
        for us, ts in seqs(4, 2, 3):
            for tt in TIMES:
                yield [us, ts, "int", "rev", "T:" + tt]
        for us, ts in seqs(3, 3, 2):
            for ut in kinds():
                yield [us, ts, "K:" + ut, "dup", "int"]
        for n in (40, 300, 1025):
            for k in (1, 3, 7) if n < 1000 else (1, 129, 257):
                us = [(i * i) % k for i in range(n)]
                ts = [(i * 7919) % n // 2 for i in range(n)]
                yield [us, ts, "int", "rev", "int"]
    return gen


UT = {"int": lambda u: [3, 1, 2, 9, 8, 7, 6][u] if u < 7 else 10 + u * 577 % 1009, "str": lambda u: ["b", "a", "c", "d", "e", "f", "g"][u], "neg": lambda u: [-1, 0, -5][u % 3],
      "mixed": lambda u: [1, "1", "x"][u % 3], "obj": lambda u: [(1, 2), (0, 9), (5,)][u % 3], "cat": lambda u: ["z", "x", "y"][u % 3]}


def build(us, ts, ut, ix, tt):
    import pandas as pd

    n = len(us)
    if ut[:2] == "K:":
        f, mk = kinds()[ut[2:]]
        users = mk([f(u) for u in us])
    else:
        users = pd.Series([UT[ut](u) for u in us], dtype="category" if ut == "cat" else None)
    times = TIMES[tt[2:]] if tt[:2] == "T:" else {"float": lambda t: t * 0.5, "int": lambda t: t, "dt": lambda t: pd.Timestamp(2020, 1, 1 + t), "str": lambda t: f"2020-0{t + 1}",
             "negfloat": lambda t: -1.0 * t}[tt]
    df = pd.DataFrame({"uid": users, "item": range(100, 100 + n), "t": pd.Series([times(t) for t in ts], dtype=TIME_DTYPE.get(tt[2:])),
                       "extra": [f"x{i}" for i in range(n)]})
    df.index = {"range": list(range(n)), "rev": list(range(n, 0, -1)), "dup": [i // 2 for i in range(n)], "str": [f"r{i}" for i in range(n)]}[ix]
    return df


def run(ctx, case):
    import pandas as pd

    from irspack.split import split_last_n_interaction_df

    us, ts, ut, ix, tt = case
    df = build(us, ts, ut, ix, tt)
    orig = df.copy(deep=True)
    n = len(us)
    olist = list(zip(orig.index, *[list(orig[c]) for c in ("uid", "t", "extra", "item")]))
    rows = {100 + i: (us[i], df["t"].iloc[i], i) for i in range(n)}
    confs = [dict(n_heldout=k) for k in (0, 1, 2, 3, n)] + [dict(heldout_ratio=q, ceil_n_heldout=c) for q in RATIOS for c in (False, True)] + [
        {}, dict(n_heldout=1, heldout_ratio=0.9, ceil_n_heldout=True)]
    if n >= 5 or (ut, ix, tt) != ("int", "range", "float"):
        confs = confs[(sum(us) + 2 * sum(ts)) % 4::4]
    for kw in confs:
        a, b = split_last_n_interaction_df(df, "uid", "t", **kw)
        ctx.step()
        msg = f"users {us}, times {ts}, {kw}"
        ctx.check(df.equals(orig) and list(df.index) == list(orig.index), f"{msg}: the log was modified")
        for part in (a, b):
            ctx.check(list(part.columns) == list(df.columns) and all(part.dtypes == df.dtypes), f"{msg}: columns changed")
        got = sorted(list(a["item"]) + list(b["item"]))
        ctx.eq(got, sorted(rows), f"{msg}: rows")
        for part in (a, b):
            for r in zip(part.index, *[list(part[c]) for c in ("uid", "t", "extra", "item")]):
                ctx.check(r == olist[r[-1] - 100], lambda: f"{msg}: row changed: {r}")
        A, B = [rows[i][:2] for i in a["item"]], [rows[i][:2] for i in b["item"]]
        for u in set(us):
            ka = [t for w, t in A if w == u]
            kb = [t for w, t in B if w == u]
            N = len(ka) + len(kb)
            if "n_heldout" in kw:
                want = min(kw["n_heldout"], N)
            else:
                q = kw.get("heldout_ratio", 0.1)
                want = (math.ceil if kw.get("ceil_n_heldout") else math.floor)(N * q)
            ctx.check(len(kb) == want, lambda: f"{msg}: user {u} has {len(kb)} of {N} rows held out, expected {want}")
            if ka and kb:
                ctx.check(max(ka) <= min(kb), lambda: f"{msg}: user {u}: kept rows at {ka}, held-out rows at {kb}")
        ctx.outcome(sorted(b["item"]))


# ------------------------------------------------------------------ identical rows, every ratio
def same_cases(tier):
    def gen():
        rows = list(itertools.product(range(2), range(2), range(2)))  # user, time, item
        for n in range(1, 5 if tier == "thorough" else 4):
            for L in itertools.product(rows, repeat=n):
                for ix in ("range", "zero"):
                    yield [L, ix]
    return gen


def run_same(ctx, case):
    """Rows are compared as a multiset: repeated rows are rows of their own."""
    from collections import Counter

    import pandas as pd

    from irspack.split import split_last_n_interaction_df

    L, ix = case
    df = pd.DataFrame(L, columns=["u", "t", "i"])
    if ix == "zero":
        df.index = [0] * len(L)
    for kw in [dict(n_heldout=k) for k in (0, 1, 2)] + [dict(heldout_ratio=q, ceil_n_heldout=c) for q in (0.5, 0.75) for c in (False, True)]:
        a, b = split_last_n_interaction_df(df, "u", "t", **kw)
        ctx.step()
        ra, rb = ([tuple(map(int, r)) for r in x[["u", "t", "i"]].values] for x in (a, b))
        ctx.check(Counter(ra) + Counter(rb) == Counter(map(tuple, L)), lambda: f"log {L}, {kw}: parts {ra} and {rb}")
        for u in (0, 1):
            N = sum(r[0] == u for r in L)
            want = min(kw["n_heldout"], N) if "n_heldout" in kw else (math.ceil if kw["ceil_n_heldout"] else math.floor)(N * kw["heldout_ratio"])
            ctx.check(sum(r[0] == u for r in rb) == want, lambda: f"log {L}, {kw}: user {u}: {rb} held out, expected {want} rows")
            ctx.check(max([r[1] for r in ra if r[0] == u], default=-1) <= min([r[1] for r in rb if r[0] == u], default=9),
                      lambda: f"log {L}, {kw}: user {u}: kept {ra}, held out {rb}")
    ctx.outcome(case)


def ratio_cases(tier):
    def gen():
        for den in (100, 7, 64):
            for k in range(den + 1):
                yield [k, den]
    return gen


def run_ratio(ctx, case):
    import numpy as np
    import pandas as pd

    from irspack.split import split_last_n_interaction_df

    k, den = case
    N = 64
    u = np.repeat(np.arange(1, N + 1), np.arange(1, N + 1))
    t = np.arange(len(u)) * 7919 % len(u)
    df = pd.DataFrame({"u": u, "t": t})
    for ceil in (False, True):
        a, b = split_last_n_interaction_df(df, "u", "t", heldout_ratio=k / den, ceil_n_heldout=ceil)
        ctx.step()
        cnt = b.groupby("u").size().reindex(range(1, N + 1), fill_value=0).tolist()
        ctx.eq(cnt, [(math.ceil if ceil else math.floor)(n * (k / den)) for n in range(1, N + 1)], f"ratio {k}/{den}: rows held out of 1, 2, ..., {N}")
        ctx.eq(sorted(list(a["t"]) + list(b["t"])), sorted(t.tolist()), "rows")
        ma, mb = a.groupby("u")["t"].max(), b.groupby("u")["t"].min()
        both = ma.index.intersection(mb.index)
        ctx.check((ma[both] < mb[both]).all(), f"ratio {k}/{den}: a kept row is more recent than a held-out one")
    ctx.outcome(case)


def families(tier):
    return {"logs": (cases(tier), run), "same_rows": (same_cases(tier), run_same), "ratios": (ratio_cases(tier), run_ratio)}
