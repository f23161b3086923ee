"""C22: P3alpha / RP3beta against the random-walk formulas."""
from checks.c21 import mat

LEVEL = "model_checking"
RULE = (
    "Every small interaction matrix (binary and three-valued, empty rows and columns included) is given to both random-walk models over a grid of exponents, "
    "popularity penalties, top_k, normalization and thread counts; the weights are compared entry by entry with the walk evaluated in plain Python and the kept "
    "entries of every column with the top-k rule. The kernels are also driven directly with every chunk size and thread count."
)
ASSUMPTIONS = ["Interaction weights are positive and finite.", "Values tied only up to rounding may be selected either way; identical item columns tie exactly and go to the smaller index."]
BOUNDS = {"quick": "all 2^9 binary 3x3, all 3^6 2x3/3x2 three-valued x ~40 settings; all 3^6 with fractional weights; 1x5 and 2x4 tie patterns x top_k 0..5; kernel chunk 1..4 x threads 1..6; a 300-item matrix and the sizes of vf/scale.py",
          "thorough": "all 2^12 3x4/4x3 binary and 3^9 3x3 three-valued matrices"}


def setup():
    from vf.load import install

    install()
    import irspack.recommenders  # noqa


def walk(D, alpha, beta):
    """W[i][j]: from item i to a user (prob ~ X^alpha) and on to item j (prob ~ X^alpha), discounted by popularity(j)^beta"""
    nu, ni = D.shape
    P = [[D[u, i] ** alpha if D[u, i] else 0.0 for i in range(ni)] for u in range(nu)]
    iu = [sum(P[u][i] for u in range(nu)) for i in range(ni)]
    ui = [sum(P[u][i] for i in range(ni)) for u in range(nu)]
    pop = [sum(D[u, i] for u in range(nu)) for i in range(ni)]
    W = {}
    for i in range(ni):
        for j in range(ni):
            us = [u for u in range(nu) if D[u, i] and D[u, j]]
            if us:
                W[i, j] = sum((P[u][i] / iu[i]) * (P[u][j] / ui[u]) for u in us) / (pop[j] ** beta)
    return W


def judge(ctx, D, alpha, beta, k, nz, th, msg, X=None, W=None):
    import numpy as np
    import scipy.sparse as sps

    from irspack.recommenders import P3alphaRecommender, RP3betaRecommender
    from vf.knnref import check_topk

    ni = D.shape[1]
    if W is None:
        X = sps.csr_matrix(D) if X is None else X
        kw = dict(alpha=alpha, top_k=k, normalize_weight=nz, n_threads=th)
        rec = P3alphaRecommender(X, **kw) if beta is None else RP3betaRecommender(X, beta=beta, **kw)
        rec.learn()
        W = rec.W
        A = W.toarray()
        S = np.asarray(rec.get_score(np.arange(D.shape[0])))
        ctx.check(np.allclose(S, D @ A, rtol=1e-9, atol=1e-12), lambda: f"{msg}: scores")
        C = np.asarray(rec.get_score_cold_user(sps.csr_matrix(3 * D)))
        ctx.check(np.allclose(C, 3 * D @ A, rtol=1e-9, atol=1e-12), lambda: f"{msg}: cold scores")
    else:
        A = W.toarray()
    ctx.eq(A.shape, (ni, ni), f"{msg}: shape")
    ctx.check(np.isfinite(A).all(), lambda: f"{msg}: non-finite weight {A.tolist()}")
    want = walk(D, alpha, 0.0 if beta is None else beta)
    kk = ni if k is None else k
    if nz:
        # every non-empty row sums to one, and undoing the division gives the walk
        s = A.sum(axis=1)
        ctx.check(all(abs(x - 1) < 1e-9 for x, r in zip(s, A) if r.any()), lambda: f"{msg}: row sums {s}")
    cols = {j: tuple(D[:, j]) for j in range(ni)}
    for j in range(ni):
        w = {i: (want[i, j], ("same", cols[i])) for i in range(ni) if (i, j) in want}
        got = {i: float(A[i, j]) for i in range(ni) if A[i, j] != 0}
        if nz:
            # recover the unnormalized weights with the kept pattern
            got2 = {}
            for i in got:
                tot = sum(want.get((i, m), 0.0) for m in range(ni) if A[i, m] != 0)
                got2[i] = got[i] * tot
            got = got2
        check_topk(ctx, got, w, kk, f"{msg}: column {j}")
    ctx.outcome(tuple(np.round(A, 9).ravel()))


def settings():
    for a in (0.0, 0.5, 1.0, 2.0):
        for beta in (None, 0.0, 0.6, 1.0):
            for k in (None, 1, 2):
                for nz in (False, True):
                    yield a, beta, k, nz


def matrices(tier):
    def gen():
        for c in range(2 ** 9):
            yield ["m", [3, 3], 2, c]
        for c in range(3 ** 6):
            yield ["m", [2, 3], 3, c]
            yield ["m", [3, 2], 3, c]
            yield ["f", [2, 3] if c % 2 else [3, 2], 3, c]
        if tier == "thorough":
            for c in range(2 ** 12):
                yield ["m", [3, 4], 2, c]
                yield ["m", [4, 3], 2, c]
            for c in range(3 ** 9):
                yield ["m", [3, 3], 3, c]
        for c in range(3 ** 5):
            yield ["t", [1, 5], 3, c]
        for c in range(3 ** 8):
            if tier == "thorough" or c % 8 == 1:
                yield ["t", [2, 4], 3, c]
    return gen


def run_m(ctx, case):
    import numpy as np

    kind, shape, base, c = case
    D = mat(c, shape, base)
    if kind == "f":  # fractional and large weights
        D = np.asarray([0.0, 0.125, 3.5] if c % 4 < 2 else [0.0, 0.75, 0.01])[D.astype(int)]
    n = 0
    if kind == "t":
        for k in range(0, shape[1] + 2):
            for i, (a, b) in enumerate(((1.0, None), (1.0, 0.6), (0.0, 1.0))):
                judge(ctx, D, a, b, k, False, 1 + (i + k) % 3, f"alpha={a} beta={b} top_k={k} X={D.tolist()}")
                n += 1
        return ctx.step(n)
    for i, (a, b, k, nz) in enumerate(settings()):
        if base == 2 and a in (0.5, 2.0):
            continue
        if (i + c) % 3 and (shape != [3, 3] or base == 3):
            continue
        th = 1 + (i + c) % 3
        judge(ctx, D, a, b, k, nz, th, f"alpha={a} beta={b} top_k={k} normalize={nz} threads={th} X={D.tolist()}")
        n += 1
    ctx.step(n)


def kernels(tier):
    def gen():
        for rows in range(1, 6):
            for ch in (1, 2, 3, 4):
                for th in range(1, 7):
                    yield ["k", rows, ch, th]
        for th in (1, 2, 7, 8):
            yield ["big", th]
        yield ["big", 3, 1030]
        for fmt in ("csc", "unsorted", "int", "float32"):
            yield ["fmt", fmt]
        yield ["reject"]
    return gen


def run_k(ctx, case):
    import numpy as np
    import scipy.sparse as sps

    from irspack.recommenders import P3alphaRecommender, RP3betaRecommender, _knn

    if case[0] == "k":
        _, rows, ch, th = case
        for v in range(4):
            D = np.asarray([[(u * 3 + i * 2 + v + u * i) % 4 % 3 for i in range(rows)] for u in range(3)], float)
            Xt = sps.csr_matrix(D.T)
            for k in (1, 2, 9):
                judge(ctx, D, 0.7, None, k, False, th, f"P3 kernel {case} v={v} k={k} X={D.tolist()}", W=_knn.P3alphaComputer(Xt, 0.7, th, ch).compute_W(Xt, k))
                judge(ctx, D, 0.7, 0.4, k, False, th, f"RP3 kernel {case} v={v} k={k} X={D.tolist()}", W=_knn.RP3betaComputer(Xt, 0.7, 0.4, th, ch).compute_W(Xt, k))
        return ctx.step(24)
    D = np.asarray([[1, 0, 2, 1], [0, 3, 1, 0], [2, 2, 0, 1], [0, 0, 0, 0]], float)
    if case[0] == "big":
        D = np.asarray([[((r * 7 + c * c * 3 + r * c) % 11 < 3) * (1 + (r + c) % 2) for c in range(case[2] if len(case) > 2 else 300)] for r in range(5)], float)
        for b in (None, 0.5):
            for k in (None, 3):
                judge(ctx, D, 1.0, b, k, False, case[1], f"big beta={b} top_k={k} threads={case[1]}")
        return ctx.step(4)
    if case[0] == "fmt":
        X = sps.csr_matrix(D)
        fmt = case[1]
        if fmt == "csc":
            X = X.tocsc()
        elif fmt in ("int", "float32"):
            X = X.astype(np.int64 if fmt == "int" else np.float32)
        else:
            for r in range(4):
                s = slice(X.indptr[r], X.indptr[r + 1])
                X.indices[s] = X.indices[s][::-1].copy()
                X.data[s] = X.data[s][::-1].copy()
            X.has_sorted_indices = False
        for b in (None, 0.6):
            judge(ctx, D, 0.5, b, 2, True, 2, f"{fmt} beta={b}", X=X)
        ctx.check(np.array_equal(X.toarray(), D), "input modified")
        return ctx.step(2)
    X = sps.csr_matrix(D)
    for bad in (dict(alpha=-1.0), dict(n_threads=0)):
        ctx.raises((ValueError, TypeError), lambda: P3alphaRecommender(X, **bad).learn(), f"P3 {bad}")
        ctx.raises((ValueError, TypeError), lambda: RP3betaRecommender(X, **bad).learn(), f"RP3 {bad}")
    ctx.raises((ValueError, TypeError), lambda: RP3betaRecommender(X, beta=-0.1).learn(), "RP3 beta")
    # documented defaults
    judge(ctx, D, 1.0, None, None, False, 1, "P3 defaults", W=P3alphaRecommender(X).learn().W)
    judge(ctx, D, 1.0, 0.6, None, False, 1, "RP3 defaults", W=RP3betaRecommender(X).learn().W)
    ctx.step(7)


def families(tier):
    return {"matrices": (matrices(tier), run_m), "kernels": (kernels(tier), run_k)}
