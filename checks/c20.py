"""C20: all scoring routes agree, repeatably and without side effects."""
import itertools

from checks.c21 import mat
from vf import models as Z
from vf import progress

LEVEL = "model_checking"
RULE = (
    "Every recommender class is fitted to small matrices (all binary ones plus patterned weighted ones in several storage formats). For every user-index sequence up "
    "to length 3, every block and every presentation of the same histories as cold users, each scoring route is compared row by row with the single-user score; "
    "every sequence of three scoring calls (results overwritten by the caller in between) must repeat the first answers and leave the model and data unchanged; a second fit must reproduce the first. "
    "Histories with every combination of absent, positive and negative values are scored with the seen items removed, and every scoring call is tried on a model that has not been fitted."
)
ASSUMPTIONS = ["lightfm, jax, haiku and optax are replaced by deterministic stand-ins.",
               "For NMF, factorization and embedding models a cold-user score is an approximation and is only required to be consistent with itself."]
BOUNDS = {"quick": "20 model settings x all 2^6 binary 2x3 + 8 patterned 3x4 (5 formats) x all index sequences of length 0..3 x all blocks; all sequences of 3 of 8 operations; all 3^3 signed histories; 8 calls before fitting; 33..65537 users scored at once; models scored, trained further and refitted",
          "thorough": "all 2^9 binary 3x3 and all sequences of 4 operations"}
INF = float("inf")


def setup():
    Z.setup()


def close(a, b, tol):
    import numpy as np

    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    fa, fb = np.isinf(a), np.isinf(b)
    return bool((fa == fb).all() and (a[fa] == b[fb]).all() and np.allclose(a[~fa], b[~fb], rtol=tol, atol=tol))


def usable(name, D):
    import numpy as np

    return name not in Z.NEEDS_DATA or np.linalg.matrix_rank(D) >= 2


def patterned(v):
    import numpy as np

    return np.asarray([[((u * 3 + i * 2 + v + u * i * i) % 5 < 2 + (u == 1)) * (1.0 + (u + i + v) % 2) for i in range(4)] for u in range(3)])


def fmt_of(D, fmt):
    import numpy as np
    import scipy.sparse as sps

    X = sps.csr_matrix(D)
    if fmt == "csc":
        return X.tocsc()
    if fmt == "int":
        return X.astype(np.int64)
    if fmt == "f32":
        return X.astype(np.float32)
    if fmt == "unsorted":
        for r in range(D.shape[0]):
            s = slice(X.indptr[r], X.indptr[r + 1])
            X.indices[s] = X.indices[s][::-1].copy()
            X.data[s] = X.data[s][::-1].copy()
        X.has_sorted_indices = False
    if fmt == "zeros":
        X = X.tolil().tocsr()
        c = sps.coo_matrix(X)
        free = [(u, i) for u in range(D.shape[0]) for i in range(D.shape[1]) if not D[u, i]][:2]
        rows = np.concatenate([c.row, [f[0] for f in free]]).astype(int)
        cols = np.concatenate([c.col, [f[1] for f in free]]).astype(int)
        X = sps.csr_matrix((np.concatenate([c.data, np.zeros(len(free))]), (rows, cols)), shape=D.shape)
    return X


def routes(tier):
    def gen():
        for name in Z.SPEC:
            if tier == "thorough":
                for c in range(2 ** 9):
                    yield [name, "bin", c, 3, "csr"]
            for c in range(2 ** 6):
                yield [name, "bin", c, 2, "csr"]
            for v in range(8):
                for fmt in ("csr", "csc", "int", "f32", "unsorted", "zeros"):
                    yield [name, "pat", v, 3, fmt]
    return gen


def run_routes(ctx, case):
    import warnings

    import numpy as np
    import scipy.sparse as sps

    warnings.simplefilter("ignore")
    name, kind, c, rows, fmt = case
    D = mat(c, [rows, 3], 2) if kind == "bin" else patterned(c)
    if not usable(name, D):
        return
    tol = Z.SPEC[name][2]
    X = fmt_of(D, fmt)
    rec = Z.make(name, X)
    ctx.check(rec.learn() is rec, "learn does not return the model")
    nu, ni = D.shape
    msg = f"{name} {fmt} X={D.tolist()}"
    one = [np.array(rec.get_score(np.array([u]))) for u in range(nu)]
    for o in one:
        ctx.eq(o.shape, (1, ni), f"{msg}: shape of a single score")
        ctx.check(np.isfinite(o).all(), lambda: f"{msg}: non-finite scores {o}")
    S = np.concatenate(one)
    M = S.copy()
    M[D != 0] = -INF
    n = 0
    for k in range(0, 4):
        for idx in itertools.product(range(nu), repeat=k):
            ui = np.array(idx, dtype=np.int64 if n % 2 else np.int32)
            keep = ui.copy()
            G = rec.get_score(ui)
            ctx.check(isinstance(G, np.ndarray) and close(G, S[list(idx)].reshape(k, ni), tol), lambda: f"{msg}: get_score({idx})\n{G}\nexpected\n{S[list(idx)]}")
            G = rec.get_score_remove_seen(ui)
            ctx.check(close(G, M[list(idx)].reshape(k, ni), tol), lambda: f"{msg}: get_score_remove_seen({idx})\n{G}\nexpected\n{M[list(idx)]}")
            ctx.check(np.array_equal(ui, keep), "index argument modified")
            n += 2
    for b in range(nu + 1):
        for e in range(b, nu + 1):
            if name in Z.HAS_BLOCK:
                G = rec.get_score_block(b, e)
                ctx.check(isinstance(G, np.ndarray) and close(G, S[b:e], tol), lambda: f"{msg}: get_score_block({b},{e})\n{G}\nexpected\n{S[b:e]}")
                G = rec.get_score_remove_seen_block(b, e)
                ctx.check(close(G, M[b:e], tol), lambda: f"{msg}: get_score_remove_seen_block({b},{e})\n{G}\nexpected\n{M[b:e]}")
            else:
                ctx.raises(NotImplementedError, lambda: rec.get_score_block(b, e), f"{name}: block scoring")
            n += 2
    if name in Z.HAS_COLD:
        def cold(idx, f, rs):
            Y = fmt_of(D[list(idx)].reshape(len(idx), ni), f)
            keep = Y.toarray()
            G = rec.get_score_cold_user_remove_seen(Y) if rs else rec.get_score_cold_user(Y)
            ctx.check(np.array_equal(Y.toarray(), keep), f"{msg}: cold-user history modified")
            return np.asarray(G)

        base = np.concatenate([cold([u], "csr", False) for u in range(nu)])
        if name in Z.FROM_HISTORY:
            ctx.check(close(base, S, tol), lambda: f"{msg}: same histories as cold users\n{base}\nexpected\n{S}")
        bm = base.copy()
        bm[D != 0] = -INF
        ctol = max(tol, 1e-3) if name == "nmf" else tol
        for k in range(1, 4):
            for idx in itertools.product(range(nu), repeat=k):
                if name == "nmf" and k > 1:
                    continue  # scikit-learn's joint stopping rule couples rows
                f = ("csr", "csc", "unsorted", "f32")[(n + k) % 4]
                G = cold(idx, f, False)
                ctx.check(close(G, base[list(idx)], ctol), lambda: f"{msg}: cold users {idx} ({f})\n{G}\nexpected\n{base[list(idx)]}")
                G = cold(idx, f, True)
                ctx.check(close(G, bm[list(idx)], ctol), lambda: f"{msg}: cold users, seen removed {idx} ({f})\n{G}\nexpected\n{bm[list(idx)]}")
                n += 2
    else:
        ctx.raises(NotImplementedError, lambda: rec.get_score_cold_user(sps.csr_matrix(D)), f"{name}: cold users")
    # embeddings reproduce the scores
    if hasattr(rec, "get_user_embedding"):
        ue, ie = np.array(rec.get_user_embedding()), np.array(rec.get_item_embedding())
        ctx.eq((ue.shape[0], ie.shape[0], ue.shape[1]), (nu, ni, ie.shape[1]), f"{msg}: embedding shapes")
        for sel in ([0], list(range(nu))[::-1], [nu - 1, 0, nu - 1]):
            ctx.check(close(rec.get_score_from_user_embedding(ue[sel]), S[sel], tol), f"{msg}: scores from user embeddings {sel}")
            G = rec.get_score_from_item_embedding(np.array(sel), ie)
            bias = rec.fm.item_biases[None] if name == "bprfm" else 0.0
            ctx.check(close(G + bias, S[sel], tol), f"{msg}: scores from item embeddings {sel}")
            ctx.check(close(rec.get_score_from_item_embedding(np.array(sel), ie[[ni - 1, 0]]) + (bias if name != "bprfm" else bias[:, [ni - 1, 0]]), S[sel][:, [ni - 1, 0]], tol), f"{msg}: scores from some item embeddings {sel}")
    if fmt == "zeros":
        R = np.array(Z.make(name, fmt_of(D, "csr")).learn().get_score(np.arange(nu)))
        ctx.check(close(R, S, tol), lambda: f"{msg}: stored zeros change the scores\n{S}\nexpected\n{R}")
    if True:
        ctx.check(np.array_equal(sps.csr_matrix(rec.X_train_all).toarray(), D) and np.array_equal(X.toarray(), D), f"{msg}: training data modified")
    # a second fit gives the same model
    S2 = np.concatenate([np.array(Z.make(name, fmt_of(D, fmt)).learn().get_score(np.arange(nu)))])
    ctx.check(np.array_equal(np.array(rec.get_score(np.arange(nu))), S2), lambda: f"{msg}: refitting gives different scores")
    ctx.outcome(tuple(np.round(S, 6).ravel()))
    ctx.step(n)


OPS = ["score", "block", "seen", "seen_block", "cold", "cold_seen", "refit_other", "user_emb"]


def sequences(tier):
    def gen():
        k = 4 if tier == "thorough" else 3
        for name in Z.SPEC:
            for first in OPS:
                for v in (0, 3):
                    yield [name, first, v, k]
    return gen


def run_seq(ctx, case):
    import warnings

    import numpy as np
    import scipy.sparse as sps

    warnings.simplefilter("ignore")
    name, first, v, k = case
    D = patterned(v)
    if not usable(name, D):
        return
    rec = Z.make(name, sps.csr_matrix(D)).learn()
    X = sps.csr_matrix(D)
    ui = np.array([2, 0])

    def do(op):
        if op == "score":
            return rec.get_score(ui)
        if op == "seen":
            return rec.get_score_remove_seen(ui)
        if op == "block" and name in Z.HAS_BLOCK:
            return rec.get_score_block(1, 3)
        if op == "seen_block" and name in Z.HAS_BLOCK:
            return rec.get_score_remove_seen_block(0, 2)
        if op == "cold" and name in Z.HAS_COLD:
            return rec.get_score_cold_user(X)
        if op == "cold_seen" and name in Z.HAS_COLD:
            return rec.get_score_cold_user_remove_seen(X)
        if op == "refit_other":  # a different model of the same class does not disturb this one
            Z.make(name, sps.csr_matrix(patterned(1))).learn() if usable(name, patterned(1)) else None
            return None
        if op == "user_emb" and hasattr(rec, "get_user_embedding"):
            return np.array(rec.get_user_embedding())
        return None

    want = {op: (None if (r := do(op)) is None else np.array(r)) for op in OPS if op != "refit_other"}
    want["refit_other"] = None
    n = 0
    for rest in itertools.product(OPS, repeat=k - 1):
        if name == "nmf" and n > 40:
            break
        for i, op in enumerate((first,) + rest):
            if name in ("ease", "edlae", "nmf") and op == "refit_other" and n > 60:
                continue
            r = do(op)
            n += 1
            if want[op] is None:
                continue
            ctx.check(np.array_equal(np.asarray(r), want[op]), lambda: f"{name}: {op} after {(first,) + rest[:i]} gives\n{r}\nexpected\n{want[op]}")
            if op != "user_emb":
                r = np.asarray(r)
                if r.flags.writeable:
                    r[...] = 1e6  # the caller owns the result
    ctx.check(np.array_equal(rec.X_train_all.toarray(), D) and np.array_equal(X.toarray(), D), f"{name}: data modified by scoring")
    ctx.step(n)


# ------------------------------------------------------------------ models that have not been fitted
UNFIT = {
    "get_score": lambda r, X, np: r.get_score(np.array([0])),
    "get_score_block": lambda r, X, np: r.get_score_block(0, 2),
    "get_score_remove_seen": lambda r, X, np: r.get_score_remove_seen(np.array([0, 1])),
    "get_score_remove_seen_block": lambda r, X, np: r.get_score_remove_seen_block(0, 2),
    "get_score_cold_user": lambda r, X, np: r.get_score_cold_user(X),
    "get_score_cold_user_remove_seen": lambda r, X, np: r.get_score_cold_user_remove_seen(X),
    "get_user_embedding": lambda r, X, np: r.get_user_embedding(),
    "get_item_embedding": lambda r, X, np: r.get_item_embedding(),
}


def unfit_cases(tier):
    def gen():
        for name in Z.SPEC:
            for a in UNFIT:
                yield [name, a]
    return gen


def run_unfit(ctx, case):
    """A model that has not been fitted refuses to score, and does so without harm to a later fit."""
    import numpy as np
    import scipy.sparse as sps

    name, a = case
    D = np.array([[1.0, 0.0, 1.0, 2.0], [0.0, 1.0, 1.0, 0.0], [1.0, 1.0, 0.0, 0.0]])
    X = sps.csr_matrix(D)
    r, r2 = Z.make(name, X), Z.make(name, X)
    ctx.step()
    ctx.raises(Exception, lambda: UNFIT[a](r, X, np), f"{name}.{a} before learn")
    r.learn()
    r2.learn()
    u = np.arange(3)
    ctx.check(close(r.get_score(u), r2.get_score(u), Z.SPEC[name][2]), f"{name}: scores after an early {a} and learn")
    ctx.outcome(case)


# ------------------------------------------------------------------ signed values and stored zeros in the histories
def sizes(tier):
    def gen():
        for name in Z.SPEC:
            for n in (33, 129, 257, 1025, 4097) + ((65537,) if name != "multvae" else ()):
                yield [name, n]
    return gen


def run_sizes(ctx, case):
    """Many users at once: each gets what it would get alone."""
    import warnings

    import numpy as np
    import scipy.sparse as sps

    warnings.simplefilter("ignore")
    name, n = case
    tol = Z.SPEC[name][2]
    D = np.array([[1.0, 0.0, 1.0, 2.0], [0.0, 1.0, 1.0, 0.0], [1.0, 1.0, 0.0, 0.0], [0.0, 2.0, 1.0, 1.0], [1.0, 0.0, 0.0, 1.0]])
    rec = Z.make(name, sps.csr_matrix(D)).learn()
    k = (np.arange(n) * 3) % 5
    S = np.asarray(rec.get_score(np.arange(5)))
    ctx.check(close(np.asarray(rec.get_score(k)), S[k], 10 * tol), f"{name}: scores of {n} users differ from those of each")
    M = np.where(D > 0, -INF, S)
    ctx.check(close(np.asarray(rec.get_score_remove_seen(k)), M[k], 10 * tol), f"{name}: scores of {n} users with the seen items removed")
    if name in Z.HAS_COLD:
        C = np.asarray(rec.get_score_cold_user(sps.csr_matrix(D)))
        B = sps.csr_matrix(D)[k]
        ctx.check(close(np.asarray(rec.get_score_cold_user(B)), C[k], 10 * tol), f"{name}: scores of {n} new users differ from those of each")
        ctx.check(close(np.asarray(rec.get_score_cold_user_remove_seen(B)), np.where(D > 0, -INF, C)[k], 10 * tol), f"{name}: {n} new users with the seen items removed")
    ctx.step(4)
    ctx.outcome(case)


def signed(tier):
    def gen():
        for name in Z.SPEC:
            for c in range(3 ** (4 if tier == "thorough" else 3)):
                yield [name, c]
    return gen


def run_signed(ctx, case):
    """An interaction is any non-zero value: removing what was seen takes out negative entries too, and never a stored zero."""
    import warnings

    import numpy as np
    import scipy.sparse as sps

    warnings.simplefilter("ignore")
    name, c = case
    row = [[0.0, 1.5, -2.0][c // 3 ** i % 3] for i in range(4)]
    D = np.array([[1.0, 0.0, 1.0, 2.0], [0.0, 1.0, 1.0, 0.0], [1.0, 1.0, 0.0, 0.0]])
    H = np.array([row, row[::-1]])
    tol = Z.SPEC[name][2]
    if name in Z.HAS_COLD:
        rec = Z.make(name, sps.csr_matrix(D)).learn()
        for fmt in ("csr", "csc", "zeros", "f32"):
            Y = fmt_of(H, fmt)
            try:
                B = np.array(rec.get_score_cold_user(Y))
            except (ValueError, RuntimeError):
                ctx.outcome(name, "refused")
                break  # negative values are not in the domain of this model
            if not np.isfinite(B).all():
                break
            B[H != 0] = -INF
            G = np.asarray(rec.get_score_cold_user_remove_seen(Y))
            ctx.check(close(G, B, 10 * tol), lambda: f"{name} {fmt}: history {H.tolist()} with the seen items removed\n{G}\nexpected\n{B}")
            ctx.step()
    D2 = np.vstack([D, H])
    try:
        rec = Z.make(name, fmt_of(D2, "zeros")).learn()
        S = np.array(rec.get_score(np.arange(5)))
        B = np.array(rec.get_score_block(0, 5)) if name in Z.HAS_BLOCK else S
    except (ValueError, RuntimeError):
        return ctx.outcome(name, "not fitted")
    if not np.isfinite(S).all():
        return
    S[D2 != 0] = -INF
    idx = [4, 3, 0]
    G = rec.get_score_remove_seen(np.array(idx))
    ctx.check(close(G, S[idx], 10 * tol), lambda: f"{name}: training rows {D2.tolist()}, seen removed for {idx}\n{G}\nexpected\n{S[idx]}")
    if name in Z.HAS_BLOCK:
        G = rec.get_score_remove_seen_block(1, 5)
        ctx.check(close(G, S[1:5], 10 * tol), lambda: f"{name}: training rows {D2.tolist()}, seen removed for 1..5\n{G}\nexpected\n{S[1:5]}")
    ctx.step(2)
    ctx.outcome(name, tuple(row))


def families(tier):
    return {"progress": (progress.cases(progress.KINDS, tier), progress.run), "sizes": (sizes(tier), run_sizes), "routes": (routes(tier), run_routes), "signed": (signed(tier), run_signed), "sequences": (sequences(tier), run_seq), "unfitted": (unfit_cases(tier), run_unfit)}
