"""C14: event logs <-> matrices <-> id lists."""
import itertools

from vf.ids import kinds

LEVEL = "model_checking"
RULE = (
    "Every sequence of (user, item) events up to the bound, with ratings that tell events apart (including zero, negative and fractional ones), every "
    "choice of id lists (absent, every ordering of every subset, with unknown ids) and several id types and indexes is converted by the real code and "
    "compared cell by cell; interaction pairs are built from every pair of small matrices, converted to data frames, added and concatenated."
)
ASSUMPTIONS = ["Given id lists have no duplicates and ids are not missing."]
BOUNDS = {"quick": "logs up to 4 rows over 2x2 and 3 rows over 3x2 x 3 rating schemes x all id-list choices; 25 id types; all pairs of 2x2 matrices over 4 values",
          "thorough": "logs up to 4 rows over 3x2; all pairs of 2x3 matrices over 3 values"}
TYPES = {"int": lambda k: [7, 3, 11, 99][k], "str": lambda k: ["b", "a", "c", "zz"][k], "float": lambda k: [2.5, -1.0, 0.0, 9.5][k],
         "date": None, "mixed": lambda k: [1, "1", "x", 99][k], "cat": lambda k: ["q", "p", "r", "zz"][k]}
RATE = {"none": None, "frac": lambda k: 0.5 + 0.25 * k, "zero": lambda k: [0.0, 1.5, 0.0, -2.0, 3.0][k], "int": lambda k: k + 1,
        "fine": lambda k: [0.1, 2.0**24 + 1, 1e-30, 1e12 + 0.5, 1 / 3][k]}


def setup():
    from vf.load import install

    install()
    import irspack.split  # noqa
    import irspack.utils  # noqa


def lists(n):
    yield None
    for k in range(0, n + 1):
        for p in itertools.permutations(range(n), k):
            yield p
    yield (3,) + tuple(range(n))
    yield tuple(range(n)) + (3,)


def log_cases(tier):
    def gen():
        big = tier == "thorough"
        for U, I, N in ((2, 2, 4), (3, 2, 4 if big else 3)):
            cells = list(itertools.product(range(U), range(I)))
            for n in range(1, N + 1):
                for L in itertools.product(cells, repeat=n):
                    for r in RATE:
                        if n == 4 and r in ("int", "fine"):
                            continue
                        yield [L, U, I, r, "int", "int", "range"]
        cells = list(itertools.product(range(2), range(3)))
        for L in itertools.product(cells, repeat=2):
            for ut, it in itertools.product(TYPES, repeat=2):
                for ix in ("range", "dup"):
                    yield [L, 2, 3, "frac", ut, it, ix]
        for L in itertools.product(cells, repeat=2):
            for kind in kinds():
                for ut, it in (("K:" + kind, "int"), ("str", "K:" + kind), ("K:" + kind, "K:" + kind)):
                    yield [L, 2, 3, "frac", ut, it, "dup"]
        edge = [1, 126, 127, 128, 129, 254, 255, 256, 257, 300, 32766, 32767, 32768, 32769, 65535, 65536, 65537]
        for k in edge:  # around the limits of the integer types that can hold a row or column number
            yield ["wide", k, 7]
            yield ["wide", k, k]
            yield ["wide", 129, k]
    return gen


def ids(t):
    import pandas as pd

    if t[:2] == "K:":
        return kinds()[t[2:]][0]
    if t == "date":
        return lambda k: pd.Timestamp(2020, 1, [4, 2, 7, 20][k])
    return TYPES[t]


def run_log(ctx, case):
    import numpy as np
    import pandas as pd

    from irspack.utils import df_to_sparse

    if case[0] == "wide":
        _, nu, ni = case
        df = pd.DataFrame({"u": np.arange(nu)[::-1] * 3, "i": (np.arange(nu) * 131) % ni, "r": np.arange(nu) + 0.5})
        for ul in (None, np.arange(nu) * 3):
            for il in (None, list(range(ni))[::-1]):
                X, gu, gi = df_to_sparse(df, "u", "i", user_ids=ul, item_ids=il, rating_column="r")
                ctx.step()
                ctx.eq(X.shape, (len(gu), len(gi)), "shape")
                coo = X.tocoo()
                got = {(gu[r], gi[c]): v for r, c, v in zip(coo.row, coo.col, coo.data)}
                ctx.eq(got, {(u, i): r for u, i, r in zip(df["u"], df["i"], df["r"])}, "wide log")
        return
    L, U, I, rate, ut, it, ix = case
    uf, jf = ids(ut), ids(it)
    uv, iv = [uf(u) for u, _ in L], [jf(i) for _, i in L]
    def col(t, vals):
        return kinds()[t[2:]][1](vals) if t[:2] == "K:" else pd.Series(vals, dtype="category" if t == "cat" else None)

    df = pd.DataFrame({"user name": col(ut, uv), "I": col(it, iv)})
    # a category without a row may get a row or column of its own
    ucat, icat = (set(df[c].cat.categories) if t[:2] == "K:" and hasattr(df[c], "cat") else set() for c, t in (("user name", ut), ("I", it)))
    if RATE[rate]:
        df["R"] = [RATE[rate](k) for k in range(len(L))]
    if ix == "dup":
        df.index = [0] * len(L)
    keep = df.copy(deep=True)
    ulists = [None if x is None else [uf(k) for k in x] for x in lists(U)]
    ilists = [None if x is None else [jf(k) for k in x] for x in lists(I)]
    if len(L) >= 3 or ut != "int":
        ulists, ilists = ulists[:: max(1, len(ulists) // 5)], ilists[:: max(1, len(ilists) // 4)]
    for ul, il in itertools.product(ulists, ilists):
        X, gu, gi = df_to_sparse(df, "user name", "I", user_ids=ul, item_ids=il, rating_column="R" if RATE[rate] else None)
        ctx.step()
        msg = f"log {L} ({ut}/{it} ids, ratings {rate}), user_ids {ul}, item_ids {il}"
        gu, gi = list(gu), list(gi)
        if ul is not None:
            ctx.check(gu == ul, lambda: f"{msg}: rows {gu}")
        if il is not None:
            ctx.check(gi == il, lambda: f"{msg}: columns {gi}")
        rows = [k for k in range(len(L)) if (ul is None or uv[k] in ul) and (il is None or iv[k] in il)]
        if ul is None:
            ctx.check(len(set(gu)) == len(gu) and set(gu) >= {uv[k] for k in rows} and set(gu) <= set(uv) | ucat, lambda: f"{msg}: rows {gu}")
        if il is None:
            ctx.check(len(set(gi)) == len(gi) and set(gi) >= {iv[k] for k in rows} and set(gi) <= set(iv) | icat, lambda: f"{msg}: columns {gi}")
        W = np.zeros((len(gu), len(gi)))
        for k in rows:
            W[gu.index(uv[k]), gi.index(iv[k])] += RATE[rate](k) if RATE[rate] else 1.0
        ctx.check(X.shape == W.shape and np.allclose(X.toarray(), W, rtol=1e-12, atol=0), lambda: f"{msg}: got {X.toarray().tolist()}, expected {W.tolist()}")
        ctx.outcome(W.tolist())
    ctx.check(df.equals(keep) and list(df.index) == list(keep.index), f"log {L}: the data frame was modified")


# ------------------------------------------------------------------ pairs
VALS = [0.0, 1.0, 2.5, "z"]  # "z": a stored zero


def mat(code, shape):
    import numpy as np
    import scipy.sparse as sps

    r, c, d = [], [], []
    for k in range(shape[0] * shape[1]):
        v = VALS[code // 4**k % 4]
        if v == "z":
            v = 0.0
        elif v == 0.0:
            continue
        else:
            v = v + k * 0.125
        r.append(k // shape[1])
        c.append(k % shape[1])
        d.append(v)
    return sps.csr_matrix((np.asarray(d, dtype=float), (np.asarray(r, dtype=int), np.asarray(c, dtype=int))), shape=shape), list(zip(r, c, d))


def pair_cases(tier):
    def gen():
        for a in range(256):
            for b in range(0, 256, 1 if tier == "thorough" else 3):
                yield ["pair", a, b]
        for a in range(0, 256, 3):
            yield ["pair", a, None]
        for a in range(0, 256, 7):
            for b in range(0, 256, 11):
                yield ["concat", a, b]
        for k in range(7):
            yield ["bad", k]
    return gen


def run_pair(ctx, case):
    import numpy as np
    import scipy.sparse as sps

    from irspack.split import UserTrainTestInteractionPair as P

    ctx.step()
    if case[0] == "bad":
        X = sps.csr_matrix(np.eye(2, 3))
        k = case[1]
        f = [lambda: P(["a"], X, None), lambda: P(["a", "b", "c"], X, None), lambda: P(["a", "b"], X, X[:1]), lambda: P(["a", "b"], X, X[:, :2]),
             lambda: P(["a", "b"], X, X, ["i", "j"]), lambda: P(["a", "b"], X, None).concat(P(["c", "d"], X[:, :2], None)), lambda: P(["a", "b"], X[:, :2], None).concat(P(["c", "d"], X, None))][k]
        ctx.raises(ValueError, f, f"inconsistent shapes ({k})")
        return
    _, a, b = case
    A, la = mat(a, (2, 2))
    uids, iids = ["v", "u"], [30, 10]
    if case[0] == "concat":
        B, lb = mat(b, (3, 2)) if b % 2 else mat(b, (2, 2))
        n2 = B.shape[0]
        p1, p2 = P(uids, A, A * 2, iids), P([f"w{i}" for i in range(n2)], B, None)
        p3 = P(uids, A[::-1], A)  # the same users again
        for x, y, X, Y in ((p1, p2, (A, A * 2), (B, B * 0)), (p2, p1, (B, B * 0), (A, A * 2)), (p1, p3, (A, A * 2), (A[::-1], A))):
            q = x.concat(y)
            ctx.eq(list(q.user_ids), list(x.user_ids) + list(y.user_ids), "user ids after concatenation")
            ctx.check(np.array_equal(q.X_train.toarray(), np.vstack([X[0].toarray(), Y[0].toarray()])), "train part after concatenation")
            ctx.check(np.array_equal(q.X_test.toarray(), np.vstack([X[1].toarray(), Y[1].toarray()])), "test part after concatenation")
            ctx.check(np.array_equal(q.X_all.toarray(), q.X_train.toarray() + q.X_test.toarray()), "X_all after concatenation")
            ctx.eq((q.n_users, q.n_items), (X[0].shape[0] + Y[0].shape[0], 2), "sizes after concatenation")
        ctx.check(list(p1.user_ids) == uids and p1.n_users == 2 and list(p2.user_ids) == [f"w{i}" for i in range(n2)], "concatenation changed its operands")
        return
    B, lb = mat(b, (2, 2)) if b is not None else (None, [])
    fmt = (lambda x: x) if a % 2 else (lambda x: x.tocsc())
    p = P(np.asarray(uids) if a % 3 else uids, fmt(A), None if B is None else fmt(B), iids if a % 5 else np.asarray(iids))
    wb = np.zeros((2, 2)) if B is None else B.toarray()
    ctx.check(np.array_equal(p.X_train.toarray(), A.toarray()) and np.array_equal(p.X_test.toarray(), wb), "parts")
    ctx.check(np.array_equal(p.X_all.toarray(), A.toarray() + wb), lambda: f"X_all {p.X_all.toarray().tolist()}")
    ctx.eq((p.n_users, p.n_items, list(p.user_ids)), (2, 2, uids), "sizes and ids")
    for df, l in ((p.df_train(), la), (p.df_test(), lb)):
        got = sorted(zip(df["user_id"], df["item_id"], df["rating"]))
        want = sorted((uids[r], iids[c], v) for r, c, v in l)
        ctx.check(got == want, lambda: f"data frame {got}, expected {want}")
    ctx.outcome(a, b)


def families(tier):
    return {"logs": (log_cases(tier), run_log), "pairs": (pair_cases(tier), run_pair)}
