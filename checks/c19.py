"""C19: recommendation table against ground-truth table."""
import itertools

from vf.ids import kinds

LEVEL = "model_checking"
RULE = (
    "Every recommendation table (row order matters) and every ground-truth table of up to the bound over 2 users x 3 items, plus variants of id types, "
    "column names, indexes, extra columns, row interleavings and thread counts, are evaluated by the real code and compared with the definitions applied "
    "to each common user's list."
)
ASSUMPTIONS = ["No user is recommended an item twice and no ground-truth row repeats; ids are not missing."]
BOUNDS = {"quick": "recommendation tables up to 4 rows over 2 users x 3 items x all ground truths (2^6); 25 id types x 6 column namings x 4 indexes; 60 users; 127..1025 users x 300 items",
          "thorough": "recommendation tables up to 5 rows; 3 users x 2 items"}

IDS = {"int": lambda k: [7, 3, 11, 5][k], "neg": lambda k: [-1, 0, 2, -3][k], "str": lambda k: ["b", "a", "c", "d"][k], "float": lambda k: [2.5, -1.0, 0.0, 7.0][k],
       "mixed": lambda k: [1, "1", "x", 2.5][k], "tuple": lambda k: [(1, 2), (0,), (5, 5), ()][k], "cat": lambda k: ["q", "p", "r", "s"][k], "date": None, "bool": None, "u8": lambda k: [200, 3, 255, 0][k]}
COLS = [("user_id", "item_id"), ("user id", "item-id"), ("class", "def"), ("_u", "_i"), (0, 1), ("Index", "count"), ("item", "user")]


def setup():
    from vf.load import install

    install()
    import irspack.evaluation.evaluate_df_to_df  # noqa


def ids(t):
    import pandas as pd

    if t[:2] == "K:":
        return kinds()[t[2:]][0]
    if t == "date":
        return lambda k: pd.Timestamp(2020, 1, [4, 2, 7, 1][k])
    if t == "bool":
        return lambda k: [True, False, True, False][k]
    return IDS[t]


def frame(rows, ut, it, cols, index, extra):
    import pandas as pd

    def col(t, vals):
        return kinds()[t[2:]][1](vals) if t[:2] == "K:" else pd.Series(vals, dtype=_dt(t))

    uf, jf = ids(ut), ids(it)
    d = pd.DataFrame({cols[0]: col(ut, [uf(u) for u, _ in rows]), cols[1]: col(it, [jf(i) for _, i in rows])})
    if extra:
        d.insert(0, "score", [1.0 / (1 + k) for k in range(len(rows))])
        d.insert(2, "rank", ["r"] * len(rows))
    n = len(rows)
    if index == "dup":
        d.index = [0] * n
    elif index == "rev":
        d.index = list(range(n))[::-1]
    elif index == "str":
        d.index = [f"k{j}" for j in range(n)]
    return d


def _dt(t):
    return {"cat": "category", "u8": "uint8", "mixed": object, "tuple": object}.get(t)


def judge(ctx, rec, gt, ut, it, cols, index, extra, th, msg, names=None):
    from irspack.evaluation.evaluate_df_to_df import evaluate_recommendation_df
    from vf import metrics as M

    A, B = frame(rec, ut, it, cols, index, extra), frame(gt, ut, it, cols, index, False)
    A0, B0 = A.copy(deep=True), B.copy(deep=True)
    got = evaluate_recommendation_df(A, B, cols[0], cols[1], n_threads=th)
    users = [u for u in dict.fromkeys(u for u, _ in rec) if u in {v for v, _ in gt}]
    recs = [[i for v, i in rec if v == u] for u in users]
    gts = [{i for v, i in gt if v == u} for u in users]
    items = sorted({i for r in recs for i in r} | {i for g in gts for i in g})
    ix = {i: k for k, i in enumerate(items)}
    want = M.aggregate([[ix[i] for i in r] for r in recs], [{ix[i] for i in g} for g in gts], len(items))
    M.compare(ctx, got, want, lambda: f"{msg}: recommendations {rec}, truth {gt}", [n for n in M.NAMES if n != "catalog_coverage"] + ["total_user", "valid_user", "n_items"])
    ctx.check(A.equals(A0) and B.equals(B0) and list(A.index) == list(A0.index) and list(A.columns) == list(A0.columns), f"{msg}: a table was modified")
    return want


def cases(tier):
    def gen():
        spaces = [(2, 3, 5 if tier == "thorough" else 4)] + ([(3, 2, 5)] if tier == "thorough" else [])
        for nu, ni, N in spaces:
            cells = list(itertools.product(range(nu), range(ni)))
            for n in range(N + 1):
                for rec in itertools.permutations(cells, n):
                    yield ["all", nu, ni, rec]
        for ut in IDS:
            for it in IDS:
                for c in range(len(COLS)):
                    yield ["var", ut, it, c]
        for kind in kinds():
            for ut, it in (("K:" + kind, "int"), ("str", "K:" + kind), ("K:" + kind, "K:" + kind)):
                yield ["var", ut, it, 1]
        for nu in (1, 2, 33, 60, 127, 129, 257, 1025):
            for ni in (1, 5, 40) if nu < 100 else (5, 300):
                for th in (1, 2, 3, 8):
                    yield ["big", nu, ni, th]
        yield ["reject"]
    return gen


def run(ctx, case):
    if case[0] == "all":
        _, nu, ni, rec = case
        rec = [tuple(r) for r in rec]
        cells = list(itertools.product(range(nu), range(ni)))
        k = len(rec)
        # every ground truth for short tables, a quarter (rotating with the table) for the longest ones
        step = 1 if k <= 3 else 4
        for g in range((sum((j + 1) * (u * 3 + i) for j, (u, i) in enumerate(rec))) % step, 2 ** len(cells), step):
            gt = [c for j, c in enumerate(cells) if g >> j & 1]
            w = judge(ctx, rec, gt[::-1] if g % 3 else gt, "int", "str", COLS[0], "range", False, 1 + g % 3, "table")
            ctx.state()
        ctx.outcome(w["ndcg"], w["map"], len(rec))
    elif case[0] == "var":
        _, ut, it, c = case
        if "bool" in (ut, it):
            lim = lambda rows: [(u % 2 if ut == "bool" else u, i % 2 if it == "bool" else i) for u, i in rows if (ut != "bool" or u < 2) and (it != "bool" or i < 2)]
        else:
            lim = lambda rows: rows
        rec = lim([(0, 1), (2, 0), (1, 2), (0, 0), (1, 1), (3, 3), (0, 3)])
        gt = lim([(1, 1), (0, 3), (0, 2), (2, 3), (2, 1), (1, 0)])
        for index in ("range", "dup", "rev", "str"):
            for extra in (False, True):
                judge(ctx, rec, gt, ut, it, COLS[c], index, extra, 2, f"{ut} users, {it} items, columns {COLS[c]}, index {index}, extra columns {extra}")
        ctx.outcome(case)
    elif case[0] == "big":
        _, nu, ni, th = case
        import pandas as pd

        from irspack.evaluation.evaluate_df_to_df import evaluate_recommendation_df
        from vf import metrics as M

        lists = {u: [i for i in sorted(range(ni), key=lambda i: (i * 17 + u * 5) % (41 if ni < 41 else 307)) if (i + u) % 3][:10] for u in range(nu)}
        rows = [(u, lists[u][k]) for k in range(10) for u in range(nu) if k < len(lists[u])]  # round robin
        gts = {u: [i for i in range(ni) if (u + 3 * i) % 4 == 0] for u in range(0, nu, 1)}
        gr = [(u, i) for u in gts for i in gts[u]]
        A, B = pd.DataFrame(rows, columns=["u", "i"]), pd.DataFrame(gr, columns=["u", "i"])
        got = evaluate_recommendation_df(A, B, "u", "i", n_threads=th)
        us = [u for u in range(nu) if lists[u] and gts[u]]
        items = sorted({i for u in us for i in lists[u]} | {i for u in us for i in gts[u]})
        ix = {i: k for k, i in enumerate(items)}
        want = M.aggregate([[ix[i] for i in lists[u]] for u in us], [{ix[i] for i in gts[u]} for u in us], len(items))
        M.compare(ctx, got, want, lambda: f"{nu} users, {ni} items, {th} threads", [n for n in M.NAMES if n != "catalog_coverage"] + ["total_user", "valid_user", "n_items"])
        ctx.outcome(case)
    else:
        import pandas as pd

        from irspack.evaluation.evaluate_df_to_df import evaluate_recommendation_df

        A = pd.DataFrame({"u": [1], "i": [2]})
        bad = (ValueError, RuntimeError, KeyError, TypeError)
        ctx.raises(bad, lambda: evaluate_recommendation_df(A, A, "u", "i", n_threads=0), "zero threads")
        ctx.raises(bad, lambda: evaluate_recommendation_df(A, A, "x", "i"), "missing user column")
        ctx.raises(bad, lambda: evaluate_recommendation_df(A, A, "u", "x"), "missing item column")
        ctx.raises(bad, lambda: evaluate_recommendation_df(A, A.rename(columns={"u": "v"}), "u", "i"), "missing user column in the truth")


def families(tier):
    return {"tables": (cases(tier), run)}
