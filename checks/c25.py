"""C25: linear item models."""
from checks.c21 import mat

LEVEL = "model_checking"
RULE = (
    "Every small interaction matrix is given to the sparse linear model over a grid of penalties and sign constraints; every returned column is checked against the "
    "optimality (KKT) conditions of the stated objective evaluated in double precision, the diagonal against zero, and every top_k against the k largest "
    "coefficients of the unrestricted solution. Column counts around the vector block size and thread counts must give identical results. The closed-form models "
    "are compared with their formulas."
)
ASSUMPTIONS = ["Single-precision solution: optimality is checked to 2e-3 relative to the scale of the data, after running to convergence.",
               "Closed-form inputs are well conditioned (reg > 0)."]
BOUNDS = {"quick": "all 2^9 binary 3x3, all 3^6 2x3/3x2 x 5 penalties x 2 signs; 1..18 columns (block sizes 4 and 8) x top_k 0..6 x threads 1..4; closed forms on all 2^9+3^6 matrices x 6 settings; catalogues of 33..257 items (thorough 1025)",
          "thorough": "all 2^12 3x4/4x3 and 3^9 3x3 matrices; 1..40 columns"}


def setup():
    from vf.load import install

    install()
    import irspack.recommenders  # noqa
    import gc

    gc.collect()
    gc.freeze()  # the closed-form models call gc.collect(): keep it cheap


def kkt(ctx, D, W, alpha, l1r, pos, msg, rtol=2e-3):
    import numpy as np

    nu, ni = D.shape
    l2, l1 = nu * alpha * (1 - l1r), nu * alpha * l1r
    ctx.eq(W.shape, (ni, ni), f"{msg}: shape")
    ctx.check(np.isfinite(W).all(), f"{msg}: non-finite")
    G = D.T @ D
    g = G @ W - G + l2 * W
    scale = rtol * (1.0 + np.abs(G).max())
    for j in range(ni):
        ctx.check(W[j, j] == 0, f"{msg}: diagonal {W[j, j]}")
        for i in range(ni):
            if i == j:
                continue
            w, x = W[i, j], g[i, j]
            if w > 0:
                ok = abs(x + l1) <= scale
            elif w < 0:
                ok = (not pos) and abs(x - l1) <= scale
            else:
                ok = x >= -l1 - scale and (pos or x <= l1 + scale)
            ctx.check(ok, lambda: f"{msg}: coefficient ({i},{j})={w} is not optimal, gradient {x}, l1 {l1}\n{W}")


def slim(X, **kw):
    from irspack.recommenders import SLIMRecommender

    kw.setdefault("n_threads", 1)
    return SLIMRecommender(X, **kw).learn()


PEN = [(0.05, 0.01), (0.1, 0.5), (0.2, 0.0), (0.05, 1.0), (1.0, 0.9)]


def matrices(tier):
    def gen():
        for c in range(2 ** 9):
            yield ["m", [3, 3], 2, c]
        for c in range(3 ** 6):
            yield ["m", [2, 3], 3, c]
            yield ["m", [3, 2], 3, c]
        if tier == "thorough":
            for c in range(2 ** 12):
                yield ["m", [3, 4], 2, c]
                yield ["m", [4, 3], 2, c]
            for c in range(3 ** 9):
                yield ["m", [3, 3], 3, c]
    return gen


def run_m(ctx, case):
    import numpy as np
    import scipy.sparse as sps

    _, shape, base, c = case
    D = mat(c, shape, base)
    X = sps.csr_matrix(D)
    ni = shape[1]
    n = 0
    for i, (a, l1r) in enumerate(PEN):
        for pos in (True, False):
            msg = f"alpha={a} l1_ratio={l1r} positive={pos} X={D.tolist()}"
            rec = slim(X, alpha=a, l1_ratio=l1r, positive_only=pos, n_iter=400, tol=1e-6)
            W = rec.W.toarray().astype(float)
            kkt(ctx, D, W, a, l1r, pos, msg)
            S = np.asarray(rec.get_score(np.arange(shape[0])))
            ctx.check(np.allclose(S, D @ W, atol=1e-6), f"{msg}: scores")
            for k in (0, 1, 2):
                Wk = slim(X, alpha=a, l1_ratio=l1r, positive_only=pos, n_iter=400, tol=1e-6, top_k=k, n_threads=1 + (c + k) % 2).W.toarray().astype(float)
                topk(ctx, W, Wk, k, f"{msg} top_k={k}")
            ctx.outcome(tuple(np.round(W, 4).ravel()))
            n += 4
    for reg in (0.5, 1.0, 10.0):
        dense(ctx, D, reg, None)
        for p in (0.0, 0.3):
            dense(ctx, D, reg, p)
        n += 3
    ctx.step(n)


def topk(ctx, W, Wk, k, msg):
    import numpy as np

    for j in range(W.shape[1]):
        nz = [i for i in range(W.shape[0]) if W[i, j] != 0]
        kept = [i for i in range(W.shape[0]) if Wk[i, j] != 0]
        ctx.check(len(kept) == min(k, len(nz)), lambda: f"{msg}: column {j} keeps {kept} of {nz}")
        for i in kept:
            ctx.check(Wk[i, j] == W[i, j], lambda: f"{msg}: coefficient ({i},{j}) is {Wk[i, j]}, was {W[i, j]}")
        for d in set(nz) - set(kept):
            ctx.check(all(W[d, j] <= W[i, j] for i in kept), lambda: f"{msg}: column {j} dropped {W[d, j]} (row {d}) but kept {[W[i, j] for i in kept]}")


def dense(ctx, D, reg, p):
    import numpy as np
    import scipy.sparse as sps

    from irspack.recommenders import DenseSLIMRecommender, EDLAERecommender

    X = sps.csr_matrix(D)
    G = D.T @ D
    if p is None:
        rec = DenseSLIMRecommender(X, reg=reg).learn()
        A = G + reg * np.eye(len(G))
    else:
        rec = EDLAERecommender(X, reg=reg, dropout_p=p).learn()
        A = G + np.diag(p / (1 - p) * np.diag(G) + reg)
    W = np.asarray(rec.W)
    P = np.linalg.inv(A)
    E = -P / np.diag(P)[None, :]
    np.fill_diagonal(E, 0)
    msg = f"{'EASE' if p is None else 'EDLAE'} reg={reg} p={p} X={D.tolist()}"
    ctx.eq(W.shape, E.shape, msg)
    ctx.check(np.allclose(W, E, atol=1e-4, rtol=1e-4), lambda: f"{msg}: {W} expected {E}")
    ctx.check((np.diag(W) == 0).all(), f"{msg}: diagonal")
    S = np.asarray(rec.get_score(np.arange(D.shape[0])))
    ctx.check(np.allclose(S, D @ E, atol=1e-3), f"{msg}: scores")


def blocks(tier):
    def gen():
        for F in range(1, 41 if tier == "thorough" else 19):
            for v in range(3):
                for pos in (True, False):
                    yield ["b", F, v, pos]
        yield ["api"]
        yield ["stale"]
        for fmt in ("csc", "int", "float32", "unsorted"):
            yield ["fmt", fmt]
    return gen


def data(F, v, users=5):
    import numpy as np

    return np.asarray([[((u * 3 + i * 2 + v + u * i) % 5 < 2) * (1.0 + (u * i + v) % 3) for i in range(F)] for u in range(users)])


def run_b(ctx, case):
    import numpy as np
    import scipy.sparse as sps

    from irspack.recommenders import DenseSLIMRecommender, EDLAERecommender, SLIMRecommender

    if case[0] == "b":
        _, F, v, pos = case
        D = data(F, v)
        X = sps.csr_matrix(D)
        kw = dict(alpha=0.05, l1_ratio=0.3, positive_only=pos)
        msg = f"F={F} v={v} positive={pos}"
        ref = slim(X, n_iter=1000, tol=1e-6, **kw).W.toarray().astype(float)
        kkt(ctx, D, ref, 0.05, 0.3, pos, msg)
        for th in (2, 3, 4, 8):
            W = slim(X, n_iter=1000, tol=1e-6, n_threads=th, **kw).W.toarray()
            ctx.check(np.allclose(W, ref, atol=2e-3), lambda: f"{msg} threads={th}: converged result differs from one thread by {np.abs(W - ref).max()}")
        for k in range(0, min(F, 6) + 1):
            for th in (1, 2):
                Wk = slim(X, n_iter=1000, tol=1e-6, n_threads=th, top_k=k, **kw).W.toarray().astype(float)
                base = ref if th == 1 else None
                if base is not None:
                    topk(ctx, base, Wk, k, f"{msg} top_k={k}")
                else:
                    ctx.check(all((Wk[:, j] != 0).sum() <= k for j in range(F)), f"{msg} top_k={k} threads=2: too many kept")
                    for j in range(F):
                        kept = Wk[:, j] != 0
                        ctx.check(np.allclose(Wk[kept, j], ref[kept, j], atol=2e-3), f"{msg} top_k={k} threads=2: values changed")
                        ctx.check(kept.sum() == min(k, (np.abs(ref[:, j]) > 4e-3).sum()) or kept.sum() >= min(k, (np.abs(ref[:, j]) > 4e-3).sum()), f"{msg} top_k={k} threads=2: kept {kept.sum()}")
        # an unconverged run is a function of its input, not of the schedule
        r1 = slim(X, n_iter=2, tol=0.0, **kw).W.toarray()
        for th in (1, 2, 3, 5):
            for _ in range(2):
                W = slim(X, n_iter=2, tol=0.0, n_threads=th, **kw).W.toarray()
                ctx.check(np.array_equal(W, r1), lambda: f"{msg}: two-pass result with {th} threads differs from one thread")
        # column j of a wider problem solved with the same other columns: independence of block position
        if F >= 2:
            perm = list(range(1, F)) + [0]
            Wp = slim(sps.csr_matrix(D[:, perm]), n_iter=1000, tol=1e-6, **kw).W.toarray()
            G = D.T @ D
            if np.linalg.eigvalsh(G + 5 * 0.05 * 0.7 * np.eye(F)).min() > 0.1:
                ctx.check(np.allclose(Wp, ref[np.ix_(perm, perm)], atol=5e-3), lambda: f"{msg}: result depends on the order of the items")
        # objective of a short run never above that of the zero matrix
        l2, l1 = 5 * 0.05 * 0.7, 5 * 0.05 * 0.3
        obj = lambda B: 0.5 * ((D - D @ B) ** 2).sum() + 0.5 * l2 * (B ** 2).sum() + l1 * np.abs(B).sum()
        prev = obj(np.zeros((F, F)))
        for it in (1, 2, 3, 6, 20):
            o = obj(slim(X, n_iter=it, tol=0.0, **kw).W.toarray().astype(float))
            ctx.check(o <= prev * (1 + 1e-4) + 1e-4, lambda: f"{msg}: objective rose to {o} from {prev} at {it} passes")
            prev = o
        ctx.check(obj(ref) <= prev + 1e-3 * (1 + prev), f"{msg}: converged objective above that after 20 passes")
        ctx.step(30)
    elif case[0] == "stale":
        # columns whose coefficients get smaller and smaller within one worker
        for order in range(2):
            for F in (5, 6, 9, 12):
                base = data(F, 1, users=6) + 0.0
                sc = np.asarray([4.0 / (1 + (i if order else F - i)) for i in range(F)])
                D = base * sc[None, :]
                X = sps.csr_matrix(D)
                for pos in (True, False):
                    kw = dict(alpha=0.01, l1_ratio=0.1, positive_only=pos, n_iter=500, tol=1e-6)
                    W = slim(X, **kw).W.toarray().astype(float)
                    for k in range(0, F):
                        topk(ctx, W, slim(X, top_k=k, **kw).W.toarray().astype(float), k, f"scaled columns F={F} order={order} positive={pos} top_k={k}")
                        ctx.step()
    elif case[0] == "api":
        X = sps.csr_matrix(data(4, 0))
        for bad in (dict(n_threads=0), dict(n_iter=0), dict(alpha=-0.1), dict(l1_ratio=1.5), dict(l1_ratio=-0.5)):
            ctx.raises((ValueError, TypeError), lambda: SLIMRecommender(X, **{**dict(n_threads=1), **bad}).learn(), f"{bad}")
        # documented defaults
        D = data(4, 0)
        W = SLIMRecommender(X, n_iter=500, tol=1e-6, n_threads=1).learn().W.toarray().astype(float)
        kkt(ctx, D, W, 0.05, 0.01, True, "defaults")
        W = SLIMRecommender(X, n_threads=1).learn().W.toarray().astype(float)
        kkt(ctx, D, W, 0.05, 0.01, True, "default iterations", rtol=5e-3)
        W = np.asarray(DenseSLIMRecommender(X).learn().W)
        ctx.check(np.allclose(W, np.asarray(DenseSLIMRecommender(X, reg=1).learn().W)), "EASE default")
        W = np.asarray(EDLAERecommender(X).learn().W)
        ctx.check(np.allclose(W, np.asarray(EDLAERecommender(X, reg=1.0, dropout_p=0.1).learn().W)), "EDLAE default")
        ctx.step(9)
    else:
        D = data(6, 1)
        X = sps.csr_matrix(D)
        fmt = case[1]
        if fmt == "csc":
            X = X.tocsc()
        elif fmt in ("int", "float32"):
            X = X.astype(np.int64 if fmt == "int" else np.float32)
        else:
            for r in range(5):
                s = slice(X.indptr[r], X.indptr[r + 1])
                X.indices[s] = X.indices[s][::-1].copy()
                X.data[s] = X.data[s][::-1].copy()
            X.has_sorted_indices = False
        W = slim(X, n_iter=500, tol=1e-6).W.toarray().astype(float)
        kkt(ctx, D, W, 0.05, 0.01, True, fmt)
        A = np.asarray(DenseSLIMRecommender(X, reg=2.0).learn().W)
        B = np.asarray(DenseSLIMRecommender(sps.csr_matrix(D), reg=2.0).learn().W)
        ctx.check(np.allclose(A, B, atol=1e-5), f"EASE {fmt}")
        ctx.check(np.array_equal(X.toarray(), D), "input modified")
        ctx.step(3)


def wide(tier):
    def gen():
        for F in [33, 65, 127, 129, 255, 257] + ([300, 513, 1025] if tier == "thorough" else []):
            for pos in (True, False):
                yield [F, pos]
    return gen


def run_wide(ctx, case):
    """Catalogues beyond the small blocks: items in chains of three, so that every optimum has few coefficients."""
    import numpy as np
    import scipy.sparse as sps

    F, pos = case
    D = np.zeros((2 * F, F))
    for i in range(F):
        D[2 * i, i] = 1.0 + i % 2
        D[2 * i, (i + 1) % F] = 1.0
        D[2 * i + 1, i] = 1.0
        D[2 * i + 1, (i * 3 + 2) % F] = 2.0
    alpha, l1r = 1.0 / len(D), 0.3
    for th in (1, 3):
        W = slim(sps.csr_matrix(D), n_iter=500, tol=1e-6, n_threads=th, alpha=alpha, l1_ratio=l1r, positive_only=pos).W.toarray().astype(float)
        l2, l1 = len(D) * alpha * (1 - l1r), len(D) * alpha * l1r
        G = D.T @ D
        g = G @ W - G + l2 * W
        sc = 2e-3 * (1.0 + np.abs(G).max())
        off = ~np.eye(F, dtype=bool)
        ok = np.where(W > 0, np.abs(g + l1) <= sc, np.where(W < 0, (np.abs(g - l1) <= sc) & (not pos), (g >= -l1 - sc) & (pos | (g <= l1 + sc))))
        ctx.check((W[~off] == 0).all(), f"{case} threads={th}: a diagonal weight")
        ctx.check(ok[off].all(), lambda: f"{F} items, positive={pos}, threads={th}: {int((~ok & off).sum())} coefficients are not optimal, first {np.argwhere(~ok & off)[0].tolist()}")
        ctx.step()
    ctx.outcome(F, pos, int((W != 0).sum()))


def families(tier):
    return {"matrices": (matrices(tier), run_m), "blocks": (blocks(tier), run_b), "wide": (wide(tier), run_wide)}
