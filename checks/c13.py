"""C13: holdout_specific_interactions on every small log and indicator."""
import itertools

from vf.ids import kinds, plain

LEVEL = "model_checking"
RULE = (
    "Every small log (with and without repeated interactions), every subset of its rows as the specified interactions (given as boolean mask, index array or list), "
    "every ratio pair of a grid and several random states are split by the real code; the placement of users, targets, visible interactions and the "
    "item list are compared with the model."
)
ASSUMPTIONS = ["A repeated (user, item) row counts once more in the matrix it belongs to.", "Ids of one column are mutually comparable (np.unique is part of the interface).",
               "Train and validation users are rounded down, the rest are test users."]
BOUNDS = {"quick": "logs of up to 6 rows with all 2^rows indicators x 12 ratio pairs; up to 12 users for the shares; 19 id types; 63..300 users with a specified interaction", "thorough": "all logs over 3 users x 2 items, up to 20 users"}
RATIOS = [(0.2, 0.2), (0.5, 0.5), (0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (0.3, 0.3), (0.1, 0.9), (0.0, 0.4), (0.4, 0.0), (0.34, 0.66), (0.6, 0.3), (0.7, 0.3)]
LOGS = [
    [(0, 0)], [(0, 0), (1, 0)], [(0, 0), (0, 1), (1, 1)], [(0, 0), (1, 1), (2, 2), (3, 0)], [(0, 0), (0, 1), (1, 1), (1, 2), (2, 0)],
    [(0, 0), (0, 0)], [(0, 0), (1, 1), (0, 0), (1, 0)], [(1, 0), (0, 1), (1, 0), (0, 1), (2, 1), (1, 0)],
    [(2, 0), (0, 1), (1, 1), (0, 2), (2, 2), (1, 0)], [(0, 1), (1, 1), (2, 1), (3, 1), (4, 1), (4, 0)],
]


def setup():
    from vf.load import install

    install()
    import irspack.split  # noqa


def cases(tier):
    def gen():
        for L in LOGS:
            for bits in range(2 ** len(L)):
                for rv, rt in RATIOS:
                    for how in (("mask", "index") if bits % 2 else ("mask", "list")):
                        yield [L, bits, rv, rt, how, "int", 0]
        for L in LOGS[4:]:
            for bits in range(2 ** len(L)):
                for ids in ("str", "date"):
                    yield [L, bits, 0.3, 0.3, "mask", ids, 1]
                if bits % 3 == 1:
                    for kind in kinds():
                        yield [L, bits, 0.3, 0.3, ("mask", "index", "series")[bits % 5 % 3], "K:" + kind, 1]
                for seed in (1, 2, None):
                    yield [L, bits, 0.34, 0.34, "index", "int", seed]
        for n in range(1, 21 if tier == "thorough" else 13):
            L = [(u, u % 3) for u in range(n)] + [(u, 3) for u in range(n)]
            for q in range(0, 101, 10):
                for w in range(0, 101 - q, 10):
                    yield [L, (1 << n) - 1, q / 100, w / 100, "mask", "int", 0]
        for n in (63, 101, 129, 257, 300):
            L = [(u, u % 3) for u in range(n)] + [(u, 3) for u in range(n)]
            for rv, rt in ((0.1, 0.1), (0.5, 0.2), (0.0, 0.9)):
                yield [L, sum(1 << k for k in range(2 * n) if k % 3), rv, rt, "mask", ("int", "str")[n % 2], 0]
        for rv, rt in ((0.6, 0.5), (1.0, 0.1), (1.1, 0.0), (0.0, 1.01), (2.0, 2.0)):
            yield [LOGS[4], 5, rv, rt, "mask", "int", 0]
        if tier == "thorough":
            cells = [(u, i) for u in range(3) for i in range(2)]
            for pat in range(1, 64):
                L = [c for k, c in enumerate(cells) if pat >> k & 1]
                for bits in range(2 ** len(L)):
                    for rv, rt in RATIOS:
                        yield [L, bits, rv, rt, "mask", "str", 3]
    return gen


def run(ctx, case):
    import numpy as np
    import pandas as pd

    from irspack.split import holdout_specific_interactions

    L, bits, rv, rt, how, ids, seed = case
    L = [tuple(x) for x in L]
    K = kinds().get(ids[2:]) if ids[:2] == "K:" else None
    U = K[0] if K else {"int": lambda u: [4, 2, 9, 1, 7][u % 5] + 10 * (u // 5), "str": lambda u: f"u{9 - u}", "date": lambda u: pd.Timestamp(2020, 1, 9 - u)}[ids]
    I = K[0] if K else {"int": lambda i: [30, 10, 20, 5][i], "str": lambda i: f"i{5 - i}", "date": lambda i: pd.Timestamp(2021, 1, 9 - i)}[ids]
    col = K[1] if K else list
    df = pd.DataFrame({"u": col([U(u) for u, _ in L]), "i": col([I(i) for _, i in L]), "other": 1.5})
    if how != "mask":
        df.index = list(range(len(L), 0, -1))
    keep = df.copy(deep=True)
    flag = [bool(bits >> k & 1) for k in range(len(L))]
    ind = {"series": pd.Series(flag, index=df.index), "mask": np.asarray(flag), "index": np.asarray([k for k, f in enumerate(flag) if f], dtype=int), "list": [k for k, f in enumerate(flag) if f]}[how]
    ctx.step()

    def call():
        return holdout_specific_interactions(df, "u", "i", ind, validatable_user_ratio_val=rv, validatable_user_ratio_test=rt, random_state=seed)

    if rv + rt > 1 + 1e-9:
        ctx.raises(ValueError, call, f"ratios {rv}+{rt}")
        return
    items, data = call()
    msg = f"log {L}, specified {flag}, ratios {rv}/{rt}"
    ctx.check(df.equals(keep), f"{msg}: the log was modified")
    items = [plain(x) for x in items]
    ctx.check(len(items) == len(set(items)) and set(items) == {I(i) for _, i in L}, lambda: f"{msg}: items {items}")
    ctx.check(set(data) == {"train", "val", "test"}, f"{msg}: parts {list(data)}")
    allu = [u for d in data.values() for u in d.user_ids]
    ctx.check(len(allu) == len(set(allu)) and set(allu) == {U(u) for u, _ in L}, lambda: f"{msg}: users {allu}")
    flagged = {U(u) for (u, _), f in zip(L, flag) if f}
    nv = len(flagged)
    for k in ("val", "test"):
        ctx.check(set(data[k].user_ids) <= flagged, f"{msg}: a user without a specified interaction is in {k}")
        q = rv if k == "val" else rt
        ctx.check(-1 - 1e-9 <= len(data[k].user_ids) - q * nv <= (1 if k == "val" else 2) + 1e-9, lambda: f"{msg}: {len(data[k].user_ids)} {k} users of {nv}, ratio {q}")
    nt = len(set(data["train"].user_ids) & flagged)
    ctx.check(-1 - 1e-9 <= nt - (1 - rv - rt) * nv <= 1e-9, lambda: f"{msg}: {nt} of {nv} users with a specified interaction in train")
    if rv == 0:
        ctx.eq(len(data["val"].user_ids), 0, f"{msg}: validation users with ratio 0")
    for k, d in data.items():
        A, B = d.X_train.toarray(), d.X_test.toarray()
        ctx.eq((A.shape, B.shape), ((len(d.user_ids), len(items)),) * 2, f"{msg}: {k} shapes")
        wa, wb = np.zeros(A.shape), np.zeros(A.shape)
        for (u, i), f in zip(L, flag):
            if U(u) in d.user_ids:
                (wb if f and k != "train" else wa)[d.user_ids.index(U(u)), items.index(I(i))] += 1
        ctx.check(np.array_equal(A, wa), lambda: f"{msg}: {k}: visible {A.tolist()}, expected {wa.tolist()}")
        ctx.check(np.array_equal(B, wb), lambda: f"{msg}: {k}: targets {B.tolist()}, expected {wb.tolist()}")
        ctx.check(np.array_equal(d.X_all.toarray(), wa + wb), f"{msg}: {k}: X_all")
    if seed is not None:
        _, again = call()
        for k in data:
            ctx.check(list(again[k].user_ids) == list(data[k].user_ids), f"{msg}: same seed, different users in {k}")
    ctx.outcome(L, flag, [len(d.user_ids) for d in data.values()])


def families(tier):
    return {"holdout": (cases(tier), run)}
