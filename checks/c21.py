"""C21: neighbourhood models against their formulas."""
import itertools

from vf import knnref as K

LEVEL = "model_checking"
RULE = (
    "Every small interaction matrix (binary, three-valued and weighted) is given to every item- and user-neighbourhood model over a grid of shrinkage, "
    "weighting, exponent, normalization, top_k and thread settings; weights are compared entry by entry with the formulas evaluated in plain Python, the kept "
    "set with the top-k rule, scores with the weighted sums. The similarity kernels are also driven directly with a different target matrix, every chunk size "
    "and thread count."
)
ASSUMPTIONS = ["Interaction weights are positive and finite; no duplicate or explicitly stored zero entries.",
               "Values tied only up to rounding (1e-9) may be selected either way unless their exact inputs coincide.",
               "1e-6 in denominators is part of the formula (the library adds it to avoid division by zero)."]
BOUNDS = {"quick": "all 2^9 binary 3x3, all 3^6 2x3 and 3x2 three-valued matrices x 60-odd settings; all 3^5 one-user and 3^8 two-user tie patterns x top_k; kernels: rows 0..5 x chunk 1..4 x threads 1..6; 1 matrix with 300 items; kernels with 129..2049 candidates or targets",
          "thorough": "all 2^12 binary 3x4 / 4x3 and 3^9 3x3 matrices"}


def setup():
    from vf.load import install

    install()
    import irspack.recommenders  # noqa


def model(kind, user, X, p):
    from irspack.recommenders import knn, user_knn

    cls = {("cosine", 0): knn.CosineKNNRecommender, ("asym", 0): knn.AsymmetricCosineKNNRecommender, ("jaccard", 0): knn.JaccardKNNRecommender,
           ("tversky", 0): knn.TverskyIndexKNNRecommender, ("cosine", 1): user_knn.CosineUserKNNRecommender, ("asym", 1): user_knn.AsymmetricCosineUserKNNRecommender}[kind, user]
    return cls(X, **p)


def judge(ctx, kind, user, D, p, msg, X=None):
    import numpy as np
    import scipy.sparse as sps

    X = sps.csr_matrix(D) if X is None else X
    rec = model(kind, user, X, p).learn()
    Dw = np.asarray(D, float) if "feature_weighting" not in p else K.weight(np.asarray(D, float), p["feature_weighting"], p.get("bm25_k1", 1.2), p.get("bm25_b", 0.75))
    q = dict(p)
    if kind == "cosine":
        q.setdefault("normalize", bool(user))
    if kind in ("asym", "tversky"):
        q.setdefault("alpha", 0.5)
        q.setdefault("beta", 0.5)
    if user:
        want = K.similarity(kind, D, Dw, q, D)
        M = rec.U
    else:
        want = K.similarity(kind, D.T, Dw.T, q, D.T)
        M = rec.W
    A = np.asarray(M.toarray())
    n = len(want)
    ctx.eq(A.shape, (n, n), f"{msg}: shape")
    ctx.check(np.isfinite(A).all(), f"{msg}: non-finite weight")
    k = p.get("top_k", 100)
    for i in range(n):
        ctx.check(A[i, i] == 0, f"{msg}: self-similarity {A[i, i]} kept at {i}")
        w = want[i]
        got = {j: float(A[i, j]) for j in range(n) if A[i, j] != 0}
        # the item itself takes part in the selection and is dropped afterwards:
        # put it back when the rule says it was selected
        if i in w:
            order = sorted(w, key=lambda j: (-w[j][0], j))
            lo = w[order[min(k, len(w)) - 1]][0] if k else None
            near = k and abs(w[i][0] - lo) <= 1e-9 and any(abs(w[j][0] - lo) <= 1e-9 and w[j][1] != w[i][1] for j in w if j != i)
            sel = i in order[:k]
            if near and k < len(w):
                sel = len(got) < k
            if sel:
                got[i] = w[i][0]
        K.check_topk(ctx, got, w, k, f"{msg}: row {i}")
    # scores
    Dd = np.asarray(D, float)
    ui = np.arange(D.shape[0])
    S = np.asarray(rec.get_score(ui))
    E = A @ Dd if user else Dd @ A
    ctx.check(np.allclose(S, E, rtol=1e-9, atol=1e-12), lambda: f"{msg}: scores\n{S}\nexpected\n{E}")
    if not user:
        C = np.asarray(rec.get_score_cold_user(sps.csr_matrix(Dd[::-1] * 2)))
        ctx.check(np.allclose(C, 2 * E[::-1], rtol=1e-9, atol=1e-12), lambda: f"{msg}: cold scores")
    ctx.outcome(tuple(np.round(A, 9).ravel()))
    return A


SH = [0.0, 1.0, 0.25]


def settings(kind, user, small):
    W = ["NONE", "TF_IDF", "BM_25"]
    ks = [1, 2, 100] if small else [0, 1, 2, 3, 100]
    if kind == "cosine":
        for nz in (False, True):
            for w in W:
                for sh in (SH if nz else [0.0, 1.0]):
                    for k in ks:
                        if w != "NONE" and sh == 0.25:
                            continue
                        yield dict(normalize=nz, feature_weighting=w, shrinkage=sh, top_k=k)
        yield dict(feature_weighting="BM_25", bm25_k1=0.5, bm25_b=0.0, top_k=2)
        yield dict(feature_weighting="BM_25", bm25_k1=2.0, bm25_b=1.0, normalize=True, top_k=2)
    elif kind == "asym":
        for a in (0.0, 0.3, 0.5, 1.0):
            for w in (W if a in (0.3,) else ["NONE"]):
                for sh in (0.0, 1.0):
                    for k in ks:
                        yield dict(alpha=a, feature_weighting=w, shrinkage=sh, top_k=k)
        yield dict(alpha=0.7, feature_weighting="BM_25", bm25_k1=0.5, bm25_b=0.0, top_k=2)
    elif kind == "jaccard":
        for sh in SH:
            for k in ks:
                yield dict(shrinkage=sh, top_k=k)
    else:
        for a, b in ((0.5, 0.5), (0.0, 1.0), (1.0, 0.0), (0.0, 0.0), (2.0, 0.3)):
            for sh in (0.0, 1.0):
                for k in ks:
                    yield dict(alpha=a, beta=b, shrinkage=sh, top_k=k)


KINDS = [("cosine", 0), ("asym", 0), ("jaccard", 0), ("tversky", 0), ("cosine", 1), ("asym", 1)]


def mat(code, shape, base):
    import numpy as np

    n = shape[0] * shape[1]
    v = []
    for _ in range(n):
        v.append(code % base)
        code //= base
    return np.asarray(v, float).reshape(shape)


def matrices(tier):
    def gen():
        for c in range(2 ** 9):
            yield ["m", [3, 3], 2, c] + (["full"] if tier == "thorough" else [])
        for c in range(3 ** 6):
            yield ["m", [2, 3], 3, c]
            yield ["m", [3, 2], 3, c]
        if tier == "thorough":
            for c in range(2 ** 12):
                yield ["m", [3, 4], 2, c]
                yield ["m", [4, 3], 2, c]
            for c in range(3 ** 9):
                yield ["m", [3, 3], 3, c]
    return gen


def run_m(ctx, case):
    ctx_quick = len(case) == 4
    _, shape, base, c = case[:4]
    D = mat(c, shape, base)
    if base == 3:
        D = D * (1.0 if c % 2 else 0.5)
    n = 0
    for kind, user in KINDS:
        for i, p in enumerate(settings(kind, user, True)):
            if base == 3 and (i + c) % 3:
                continue
            if base == 2 and shape == [3, 3] and (i + c) % 2 and ctx_quick:
                continue
            if base == 2 and shape != [3, 3] and (i + c) % 4:
                continue
            th = 1 + (i + c) % 3
            judge(ctx, kind, user, D, dict(p, n_threads=th), f"{kind}{'-user' if user else ''} {p} threads={th} X={D.tolist()}")
            n += 1
    ctx.step(n)


def ties(tier):
    def gen():
        for c in range(3 ** 5):
            yield ["t", [1, 5], c]
            yield ["t", [5, 1], c]
        for c in range(3 ** 8):
            if tier == "thorough" or c % 8 == 1:
                yield ["t", [2, 4], c]
                yield ["t", [4, 2], c]
    return gen


def run_t(ctx, case):
    _, shape, c = case
    D = mat(c, shape, 3)
    n = max(shape)
    for k in range(0, n + 2):
        for kind, user, p in (("cosine", 0, {}), ("cosine", 1, {"normalize": False}), ("cosine", 0, {"normalize": True}), ("jaccard", 0, {}), ("tversky", 0, {}), ("asym", 0, {}), ("asym", 1, {"alpha": 1.0})):
            judge(ctx, kind, user, D, dict(p, top_k=k, n_threads=1 + k % 3), f"{kind}{'-user' if user else ''} {p} top_k={k} X={D.tolist()}")
    ctx.step(7 * (n + 2))


def kernels(tier):
    def gen():
        for kind in ("cosine", "asym", "jaccard", "tversky"):
            for rows in range(0, 6):
                for ch in (1, 2, 3, 4):
                    for th in range(1, 7):
                        yield ["k", kind, rows, ch, th]
        for kind, user in KINDS:
            for th in (1, 2, 3, 7, 8):
                yield ["big", kind, user, th]
        for fmt in ("csr", "csc", "unsorted", "int", "float32"):
            for kind, user in KINDS:
                yield ["fmt", fmt, kind, user]
        for kind in ("cosine", "asym", "jaccard", "tversky"):
            for n in (129, 257, 1023, 1025, 2049):
                for th in (1, 3):
                    yield ["cols", kind, n, th]
                    yield ["rows", kind, n, th]
        yield ["reject"]
    return gen


def computer(kind, F, ch, th, sh=0.5):
    from irspack.recommenders import _knn

    if kind == "cosine":
        return _knn.CosineSimilarityComputer(F, sh, True, th, ch), dict(shrinkage=sh, normalize=True)
    if kind == "asym":
        return _knn.AsymmetricSimilarityComputer(F, sh, 0.3, th, ch), dict(shrinkage=sh, alpha=0.3)
    if kind == "jaccard":
        return _knn.JaccardSimilarityComputer(F, sh, th, ch), dict(shrinkage=sh)
    return _knn.TverskyIndexComputer(F, sh, 0.2, 0.7, th, ch), dict(shrinkage=sh, alpha=0.2, beta=0.7)


def run_k(ctx, case):
    import numpy as np
    import scipy.sparse as sps

    if case[0] == "k":
        _, kind, rows, ch, th = case
        for variant in range(6):
            T = np.asarray([[(r * 3 + c * 2 + variant) % 3 for c in range(4)] for r in range(rows)], float).reshape(rows, 4)
            F = np.asarray([[(r * 2 + c + variant) % 4 % 3 for c in range(4)] for r in range(4)], float)
            comp, p = computer(kind, sps.csr_matrix(F), ch, th)
            want = K.similarity(kind, T, F, p)
            for k in (0, 1, 2, 4, 9):
                G = comp.compute_similarity(sps.csr_matrix(T), k)
                ctx.eq(G.shape, (rows, 4), "kernel shape")
                A = G.toarray()
                for r in range(rows):
                    K.check_topk(ctx, {j: float(A[r, j]) for j in range(4) if A[r, j]}, want[r], k, f"{kind} kernel rows={rows} chunk={ch} threads={th} top_k={k} row {r} T={T.tolist()} F={F.tolist()}")
        ctx.step(30)
        return
    if case[0] in ("cols", "rows"):
        # many candidates for few targets, many targets for few candidates
        _, kind, n, th = case
        few = np.asarray([[1.0, 2, 0], [0, 1, 1]])
        many = np.asarray([[r % 3, (r * r) % 4, (r + 1) % 2] for r in range(n)], float)
        T, F = (few, many) if case[0] == "cols" else (many, few)
        comp, p = computer(kind, sps.csr_matrix(F), 128, th)
        want = K.similarity(kind, T, F, p)
        for k in (n + 1, n // 2) if case[0] == "cols" else (1, 3):
            A = comp.compute_similarity(sps.csr_matrix(T), k).toarray()
            ctx.eq(A.shape, (len(T), len(F)), "kernel shape")
            for r in range(len(T)):
                w = np.zeros(len(F))
                for j, (v, _) in want[r].items():
                    w[j] = v
                g, cnt = A[r], min(k, len(want[r]))
                msg = f"{kind} kernel {T.shape} against {F.shape}, top_k={k}, threads={th}, row {r}"
                ctx.eq(int((g != 0).sum()), cnt, f"{msg}: number of weights")
                ctx.check(np.allclose(g[g != 0], w[g != 0], rtol=1e-9), f"{msg}: a weight differs from the formula")
                ctx.check(cnt == len(want[r]) or not cnt or g[g != 0].min() >= w[g == 0].max() - 1e-9, f"{msg}: a larger weight was dropped")
        ctx.step(2)
        return
    if case[0] == "big":
        _, kind, user, th = case
        n = 300
        D = np.asarray([[((r * 7 + c * c * 3 + r * c) % 11 < 3) * (1 + (r + c) % 2) for c in range(n)] for r in range(5)], float)
        if user:
            D = D.T.copy()
        ref = None
        for k in (3, 1000):
            judge(ctx, kind, user, D, dict(top_k=k, n_threads=th), f"{kind} big top_k={k} threads={th}")
        ctx.step(2)
        return
    if case[0] == "fmt":
        _, fmt, kind, user = case
        D = np.asarray([[1, 0, 2, 1], [0, 3, 1, 0], [2, 2, 0, 1], [1, 0, 1, 0]], float)
        X = sps.csr_matrix(D)
        if fmt == "csc":
            X = X.tocsc()
        elif fmt == "int":
            X = X.astype(np.int64)
        elif fmt == "float32":
            X = X.astype(np.float32)
        elif fmt == "unsorted":
            X = X.copy()
            for r in range(4):
                s = slice(X.indptr[r], X.indptr[r + 1])
                X.indices[s] = X.indices[s][::-1].copy()
                X.data[s] = X.data[s][::-1].copy()
            X.has_sorted_indices = False
        judge(ctx, kind, user, D, dict(top_k=2, n_threads=2), f"{kind} {fmt}", X=X)
        ctx.check(np.array_equal(X.toarray(), D), "input modified")
        ctx.step()
        return
    # rejections
    from irspack.recommenders import _knn

    X = sps.csr_matrix(np.asarray([[1.0, 0, 1], [0, 1, 1]]))
    for kind, user in KINDS:
        for bad in (dict(shrinkage=-0.5), dict(n_threads=0)) + ((dict(alpha=-0.1), ) if kind in ("asym", "tversky") else ()) + ((dict(alpha=1.1),) if kind == "asym" else ()) + ((dict(beta=-1.0),) if kind == "tversky" else ()):
            ctx.raises((ValueError, TypeError, RuntimeError), lambda: model(kind, user, X, bad).learn(), f"{kind} {bad}")
    for bad in ("tfidf", "", "bm25"):
        ctx.raises(ValueError, lambda: model("cosine", 0, X, dict(feature_weighting=bad)), f"weighting {bad!r}")
    for kind in ("cosine", "asym", "jaccard", "tversky"):
        comp, _ = computer(kind, X, 2, 2)
        ctx.raises(ValueError, lambda: comp.compute_similarity(sps.csr_matrix(np.ones((2, 2))), 1), f"{kind}: feature count mismatch")
        ctx.raises(ValueError, lambda: computer(kind, X, 0, 2), f"{kind}: chunk 0")
    ctx.step(30)


def families(tier):
    return {"matrices": (matrices(tier), run_m), "ties": (ties(tier), run_t), "kernels": (kernels(tier), run_k)}
