"""C11: split_dataframe_partial_user_holdout on every small log and request."""
import itertools
import math

from vf.ids import TIME_DTYPE, TIMES, kinds

LEVEL = "model_checking"
RULE = (
    "Every assignment of item sets to users within the bound, every combination of user counts and ratios, held-out counts and ratios, rounding, "
    "rating and time columns, id types, duplicated rows and random states of a grid is split by the real code; users, interactions, ratings, held-out "
    "sizes and recency are compared with the model."
)
ASSUMPTIONS = ["Ids are not missing.", "Among equally recent interactions any may be held out."]
BOUNDS = {"quick": "all item sets for 3 users x 3 items x 24 requests; all user counts/ratios in a grid for 1-7 users; 10 held-out settings; 22 id types, 14 time types; hundreds of users", "thorough": "4 users x 3 items; more seeds"}


def setup():
    from vf.load import install

    install()
    import irspack.split  # noqa


IDS = {"int": lambda k: [5, 2, 9, 1, 7, 30, 11, 4][k] if k < 8 else 31 + (k * 577) % 1009, "str": lambda k: f"id{(k * 3) % 8}", "float": lambda k: k + 0.5, "neg": lambda k: -k,
       "tup": lambda k: ("a", k), "mixed": lambda k: [1, "1", 2, "x", 5, "5", 7, "y"][k]}


def user_requests():
    for n in range(1, 8):
        for nv, nt in itertools.product([None] + list(range(n + 2)), repeat=2):
            for rv, rt in ((0.1, 0.1), (0.5, 0.34), (0.0, 1.0), (0.0, 0.0), (1.0, 0.0), (0.6, 0.6), (0.3, 0.7)):
                if n > 4 and (rv, rt) in ((0.0, 0.0), (1.0, 0.0), (0.6, 0.6)) and (nv is not None and nt is not None):
                    continue
                yield n, nv, nt, rv, rt


def cases(tier):
    def gen():
        big = tier == "thorough"
        base = dict(ids=["int", "str"], rating=None, time=None, hv=[0.5, None], ht=[0.5, None], ceil=False, seed=0)
        for n, nv, nt, rv, rt in user_requests():
            sets = [(1 << (1 + (u * 5 + 2) % 3)) | (u + 1) & 7 for u in range(n)]
            for time in (None, "up"):
                yield dict(base, sets=sets, nv=nv, nt=nt, rv=rv, rt=rt, time=time, rating=True)
        for n in (65, 101, 129, 257, 300):
            sets = [(1 << (1 + (u * 5 + 2) % 3)) | (u + 1) & 7 for u in range(n)]
            for nv, nt, rv, rt in ((None, None, 0.1, 0.1), (None, None, 0.3, 0.7), (n // 2, 3, 0.1, 0.1), (1, n - 1, 0.0, 0.0)):
                for time in (None, "up"):
                    yield dict(base, sets=sets, nv=nv, nt=nt, rv=rv, rt=rt, time=time, rating=True)
        held = [[0.5, None], [0.0, None], [1.0, None], [0.34, None], [0.9, 1], [0.1, 2], [0.5, 0], [0.2, 5]]
        for sets in itertools.product(range(1, 8), repeat=3):
            for hv, ht, ceil, time, rating in (
                ([0.5, None], [0.5, None], False, None, None), ([0.5, None], [0.34, None], True, None, True), ([0.5, 1], [0.9, 2], False, None, True),
                ([0.5, None], [0.5, None], False, "up", True), ([0.34, None], [0.5, None], True, "down", None), ([0.0, 1], [0.0, 2], False, "tie", True),
                ([0.5, 1], [0.9, 2], False, None, "zero"), ([0.5, 1], [0.9, 2], False, "down", "zero"),
            ):
                yield dict(base, sets=sets, nv=1, nt=1, rv=0.1, rt=0.1, hv=hv, ht=ht, ceil=ceil, time=time, rating=rating)
        for sets in ([7, 15, 5, 31, 3], [31, 31, 31, 31, 31], [1, 2, 4, 8, 16]):
            for hv, ht in itertools.product(held, repeat=2):
                for ceil, time in itertools.product((False, True), (None, "up", "down", "tie")):
                    yield dict(base, sets=sets, nv=2, nt=2, rv=0.1, rt=0.1, hv=hv, ht=ht, ceil=ceil, time=time, rating=True)
            for ui, ii in itertools.product(IDS, repeat=2):
                for time, rating, dup, ix in itertools.product((None, "up"), (None, True), (False, True, "differ"), ("range", "dup")):
                    yield dict(base, sets=sets, nv=None, nt=None, rv=0.41, rt=0.21, ids=[ui, ii], time=time, rating=rating, dup=dup, ix=ix)
            for kind in kinds():
                for ids in (["K:" + kind, "int"], ["str", "K:" + kind], ["K:" + kind, "K:" + kind]):
                    for time, dup in ((None, False), ("up", False), (None, "differ"), ("down", "differ-first")):
                        yield dict(base, sets=sets, nv=2, nt=1, rv=0.1, rt=0.1, ids=ids, time=time, rating=True, dup=dup)
            for tt in TIMES:
                for hv in ([0.5, None], [0.5, 1]):
                    yield dict(base, sets=sets, nv=2, nt=2, rv=0.1, rt=0.1, hv=hv, time="up", tt=tt, rating=True)
            for seed in range(6):
                yield dict(base, sets=sets, nv=2, nt=1, rv=0.1, rt=0.1, seed=seed, rating=True)
        for sets in ([7, 3],):
            for rt in (-0.1, 1.1):
                yield dict(base, sets=sets, nv=None, nt=None, rv=0.1, rt=rt, bad=True)
                yield dict(base, sets=sets, nv=None, nt=None, rv=rt, rt=0.1, bad=True)
        for sets in itertools.product(range(1, 8), repeat=2):
            for dup in ("differ", "differ-first", "thrice"):
                for nv, nt in ((1, 1), (1, 0), (0, 1), (0, 0), (2, 0)):
                    for time in (None, "up", "down"):
                        yield dict(base, sets=sets, nv=nv, nt=nt, rv=0.1, rt=0.1, time=time, rating=True, dup=dup, hv=[0.5, None], ht=[0.5, 1])
        if big:
            for sets in itertools.product(range(1, 8), repeat=4):
                for time in (None, "up", "tie"):
                    yield dict(base, sets=sets, nv=2, nt=1, rv=0.1, rt=0.1, time=time, rating=True, hv=[0.5, None], ht=[0.5, 1])
    return gen


def rating_of(u, i):
    return 0.25 + u * 1.5 + i * 0.125


def time_of(kind, u, i):
    return {"up": i * 10 + u, "down": 100 - i * 10 - u, "tie": i // 2}[kind]


def run(ctx, c):
    import numpy as np
    import pandas as pd

    from irspack.split import split_dataframe_partial_user_holdout

    K = kinds()
    uid, iid = (K[t[2:]][0] if t[:2] == "K:" else IDS[t] for t in c["ids"])
    rows = [(u, i) for u, s in enumerate(c["sets"]) for i in range(5) if s >> i & 1]
    truth = {}
    for u, i in rows:
        truth.setdefault(uid(u), {})[iid(i)] = (u, i)
    order = sorted(rows, key=lambda r: (r[1] * 7 + r[0] * 3) % 11)
    if c.get("dup") in (True, "differ"):
        order = order + order[::2]
    elif c.get("dup") == "differ-first":  # repeats of one pair next to each other
        order = [r for r in order for _ in range(2)]
    elif c.get("dup") == "thrice":
        order = order + order[::-1] + order
    seen = set()
    rep = []  # is this row a repetition?  Repetitions differ in rating and time, unless dup is True.
    for r in order:
        rep.append(r in seen and c["dup"] is not True)
        seen.add(r)
    def col(vals, t):
        if t[:2] == "K:":
            return K[t[2:]][1](vals)
        s = pd.Series(np.empty(len(vals), dtype=object)) if any(isinstance(v, tuple) for v in vals) else pd.Series(vals)
        if any(isinstance(v, tuple) for v in vals):
            for k, v in enumerate(vals):
                s.iat[k] = v
        return s
    off = 0.25 if c["rating"] == "zero" else 0.0  # user 0 rates item 0 with zero
    df = pd.DataFrame({"U": col([uid(u) for u, _ in order], c["ids"][0]), "I": col([iid(i) for _, i in order], c["ids"][1]), "R": [rating_of(u, i) - off + 50 * x for (u, i), x in zip(order, rep)],
                       "T": [time_of(c["time"] or "up", u, i) + (1 if i % 2 else -1) * 500 * x for (u, i), x in zip(order, rep)]})
    if c.get("tt"):  # times of other kinds, in the order of the items modulo 3 or 2
        df["T"] = pd.Series([TIMES[c["tt"]](i % 3) for _, i in order], dtype=TIME_DTYPE.get(c["tt"]))
    if c.get("ix") == "dup":
        df.index = [k // 2 for k in range(len(df))]
    keep = df.copy(deep=True)
    n = len(c["sets"])
    kw = dict(time_column="T" if c["time"] else None, rating_column="R" if c["rating"] else None, n_val_user=c["nv"], n_test_user=c["nt"],
              val_user_ratio=c["rv"], test_user_ratio=c["rt"], heldout_ratio_val=c["hv"][0], n_heldout_val=c["hv"][1],
              heldout_ratio_test=c["ht"][0], n_heldout_test=c["ht"][1], ceil_n_heldout=c["ceil"], random_state=c["seed"])
    ctx.step()
    if c.get("bad"):
        ctx.raises((AssertionError, ValueError), lambda: split_dataframe_partial_user_holdout(df, "U", "I", **kw), "user ratio outside [0, 1]")
        return
    wv = c["nv"] if c["nv"] is not None else int(n * c["rv"])
    wt = c["nt"] if c["nt"] is not None else int(n * c["rt"])
    if wv + wt > n:
        ctx.raises(ValueError, lambda: split_dataframe_partial_user_holdout(df, "U", "I", **kw), f"{wv}+{wt} of {n} users requested")
        ctx.outcome("rejected")
        return
    data, items = split_dataframe_partial_user_holdout(df, "U", "I", **kw)
    ctx.check(df.equals(keep) and list(df.index) == list(keep.index), "the log was modified")
    ctx.check(len(items) == len(set(items)) and set(items) == {iid(i) for _, i in rows}, lambda: f"item list {items}")
    ctx.check(set(data) == {"train", "val", "test"}, f"sets {list(data)}")
    ctx.eq([len(data[k].user_ids) for k in ("train", "val", "test")], [n - wv - wt, wv, wt],
           f"numbers of train/val/test users (of {n}; n_val={c['nv']} n_test={c['nt']} ratios {c['rv']}, {c['rt']})")
    allu = [u for k in data for u in data[k].user_ids]
    ctx.check(len(allu) == len(set(allu)) and set(allu) == set(truth), lambda: f"users {allu} of {list(truth)} (each must appear once)")
    for k, d in data.items():
        A, B, C = d.X_train.toarray(), d.X_test.toarray(), d.X_all.toarray()
        ctx.eq((A.shape, B.shape, C.shape), ((len(d.user_ids), len(items)),) * 3, f"{k}: shapes")
        ctx.check(np.allclose(C, A + B, rtol=1e-12), f"{k}: X_all is not the sum of its parts")
        ctx.eq((d.n_users, d.n_items), A.shape, f"{k}: sizes")
        for r, u in enumerate(d.user_ids):
            vis, hid = ({items[j]: v for j, v in zip(X[r].indices, X[r].data)} for X in (d.X_train, d.X_test))
            want = {it: (rating_of(*ui) - off if c["rating"] else 1.0) for it, ui in truth[u].items()}
            ctx.check(not (set(vis) & set(hid)), f"{k}: user {u}: an interaction is both visible and held out")
            got = {**vis, **hid}
            ctx.check(got == want, lambda: f"{k}: user {u} has interactions {got}, expected {want}")
            if k == "train":
                ctx.check(not hid, f"train user {u} has held-out interactions")
                continue
            q, nn = c["hv"] if k == "val" else c["ht"]
            N = len(want)
            exp = min(nn, N) if nn is not None else (math.ceil if c["ceil"] else math.floor)(N * q)
            ctx.check(len(hid) == exp, lambda: f"{k}: user {u}: {len(hid)} of {N} interactions held out, expected {exp} (ratio {q}, n {nn}, ceil {c['ceil']})")
            if c["time"] and vis and hid:
                tm = {it: TIMES[c["tt"]](ui[1] % 3) if c.get("tt") else time_of(c["time"], *ui) for it, ui in truth[u].items()}
                ctx.check(max(tm[i] for i in vis) <= min(tm[i] for i in hid), lambda: f"{k}: user {u}: an older interaction is held out: visible {[tm[i] for i in vis]}, held out {[tm[i] for i in hid]}")
        if k != "train" and len(d.user_ids):
            for part, X in ((d.df_train(), d.X_train), (d.df_test(), d.X_test)):
                g = {(u, i): r for u, i, r in zip(part["user_id"], part["item_id"], part["rating"])}
                w = {(u, items[j]): v for r, u in enumerate(d.user_ids) for j, v in zip(X[r].indices, X[r].data)}
                ctx.check(g == w and len(part) == len(w), lambda: f"{k}: data frame {g}, expected {w}")
    again, items2 = split_dataframe_partial_user_holdout(df, "U", "I", **dict(kw, random_state=np.random.RandomState(c["seed"])))
    for k in data:
        ctx.check(list(map(str, again[k].user_ids)) == list(map(str, data[k].user_ids)) and np.array_equal(again[k].X_train.toarray(), data[k].X_train.toarray()),
                  f"{k}: the same seed gives a different split")
    ctx.outcome([sorted(map(str, d.user_ids)) for d in data.values()], c["time"], c["rating"])


def families(tier):
    return {"splits": (cases(tier), run)}
